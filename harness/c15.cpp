// C15: copies and moves of cloud messages (model-based histories, under ASan).
#include <list>
#include <optional>
#include "msg_gen.hpp"
using namespace gen;
using namespace cloudini_ros;
namespace {
struct Model {
  bool usable = true;   // false once moved from
  bool owned = false;   // data lives in the object's own buffer
  const uint8_t* external = nullptr;
  std::vector<uint8_t> bytes;
  uint32_t width = 0, height = 1, step = 0, sec = 0;
  std::string frame;
  std::vector<std::string> names;
};
struct Slot {
  std::unique_ptr<RosPointCloud2> obj;
  Model m;
};
}  // namespace
int main(int argc, char** argv) {
  auto history = [](Src& s, Ctx& ctx) {
    std::list<std::vector<uint8_t>> externals;
    std::vector<Slot> pool;
    std::ostringstream log;
    uint64_t copies = 0, moves = 0;
    auto makeExternal = [&](Slot& t) {
      const uint32_t step = uint32_t(12 + s.draw(3) * 4);
      const size_t n = s.chance(1, 6) ? 0 : 1 + s.draw(6);
      externals.emplace_back(n * step);
      auto& buf = externals.back();
      Rng r(s.seed());
      for (size_t i = 0; i < n; ++i) {
        for (uint32_t b = 0; b < step; ++b) buf[i * step + b] = uint8_t(r.next());
        for (int a = 0; a < 3; ++a) {
          float f = r.below(8) == 0 ? NAN : float(r.range(-3, 3));
          memcpy(&buf[i * step + size_t(a) * 4], &f, 4);
        }
      }
      if (!t.obj) t.obj = std::make_unique<RosPointCloud2>();
      RosPointCloud2& p = *t.obj;
      p.width = uint32_t(n);
      p.height = 1;
      p.point_step = step;
      p.row_step = step * p.width;
      p.fields.clear();
      const char* nm[] = {"x", "y", "z"};
      for (uint32_t a = 0; a < 3; ++a) { PointField f; f.name = nm[a]; f.offset = 4 * a; f.type = FieldType::FLOAT32; f.resolution = 0.5f; p.fields.push_back(f); }
      p.ros_header.stamp_sec = int32_t(s.draw(1000));
      p.ros_header.frame_id = std::string(s.draw(40), 'f');
      p.data = ConstBufferView(buf.data(), buf.size());
      t.m = Model{};
      t.m.external = buf.data();
      t.m.bytes = buf;
      t.m.width = p.width; t.m.step = step; t.m.sec = uint32_t(p.ros_header.stamp_sec); t.m.frame = p.ros_header.frame_id;
      t.m.names = {"x", "y", "z"};
    };
    auto preprocess = [&](Slot& t) {
      std::vector<uint8_t> keep;
      std::set<std::array<int, 3>> seen;
      const size_t n = t.m.bytes.size() / t.m.step;
      for (size_t i = 0; i < n; ++i) {
        const uint8_t* p = &t.m.bytes[i * t.m.step];
        float f[3];
        memcpy(f, p, 12);
        if (!std::isfinite(f[0]) || !std::isfinite(f[1]) || !std::isfinite(f[2])) continue;
        if (seen.insert({int(f[0]), int(f[1]), int(f[2])}).second) keep.insert(keep.end(), p, p + t.m.step);
      }
      applyVizLossyPreprocessing(*t.obj);
      if (n) {
        t.m.owned = true;
        t.m.external = nullptr;
        t.m.bytes = keep;
        t.m.width = uint32_t(keep.size() / t.m.step);
      }
    };
    auto verify = [&](const char* after) {
      ctx.check();
      for (size_t i = 0; i < pool.size(); ++i) {
        if (!pool[i].obj || !pool[i].m.usable) continue;
        const RosPointCloud2& p = *pool[i].obj;
        const Model& m = pool[i].m;
        auto where = [&] { return " (object " + std::to_string(i) + " after " + after + ")"; };
        ctx.require(p.data.size() == m.bytes.size(), "data size ", p.data.size(), " instead of ", m.bytes.size(), where());
        if (m.owned && !m.bytes.empty()) {
          ctx.require(p.owned_data == m.bytes, "the own buffer has other contents", where());
          ctx.require(p.data.data() == p.owned_data.data(), "data does not refer to the own buffer", where());
        } else if (!m.bytes.empty()) {
          ctx.require(p.data.data() == m.external, "data does not refer to the external buffer any more", where());
        }
        for (size_t k = 0; k < m.bytes.size(); ++k) ctx.require(p.data.data()[k] == m.bytes[k], "byte ", k, " of the data differs", where());
        ctx.require(p.width == m.width && p.height == m.height && p.point_step == m.step && p.row_step == m.step * m.width && uint32_t(p.ros_header.stamp_sec) == m.sec && p.ros_header.frame_id == m.frame &&
                        p.fields.size() == m.names.size(), "metadata differs", where());
        for (size_t k = 0; k < m.names.size(); ++k) ctx.require(p.fields[k].name == m.names[k] && p.fields[k].offset == 4 * k && p.fields[k].resolution == 0.5f, "field differs", where());
      }
    };
    const size_t steps = 2 + s.draw(30);
    for (size_t st = 0; st < steps; ++st) {
      auto anyUsable = [&]() -> int {
        std::vector<int> u;
        for (size_t i = 0; i < pool.size(); ++i) if (pool[i].obj && pool[i].m.usable) u.push_back(int(i));
        return u.empty() ? -1 : u[s.draw(u.size())];
      };
      auto anyLive = [&]() -> int {
        std::vector<int> u;
        for (size_t i = 0; i < pool.size(); ++i) if (pool[i].obj) u.push_back(int(i));
        return u.empty() ? -1 : u[s.draw(u.size())];
      };
      std::string op;
      int a = anyUsable();
      const uint64_t k = a < 0 ? 0 : s.draw(14);
      switch (k) {
        case 0: pool.emplace_back(); makeExternal(pool.back()); op = "new " + std::to_string(pool.size() - 1); break;
        case 1: case 2: preprocess(pool[size_t(a)]); op = "preprocess " + std::to_string(a); break;
        case 3: { Slot t; t.obj = std::make_unique<RosPointCloud2>(*pool[size_t(a)].obj); t.m = pool[size_t(a)].m; pool.push_back(std::move(t)); op = "copy construct from " + std::to_string(a); ++copies; break; }
        case 4: { Slot t; t.obj = std::make_unique<RosPointCloud2>(std::move(*pool[size_t(a)].obj)); t.m = pool[size_t(a)].m; pool[size_t(a)].m.usable = false; pool.push_back(std::move(t)); op = "move construct from " + std::to_string(a); ++moves; break; }
        case 5: case 6: { int b = anyLive(); *pool[size_t(b)].obj = *pool[size_t(a)].obj; pool[size_t(b)].m = pool[size_t(a)].m; op = "copy assign " + std::to_string(b) + " = " + std::to_string(a); ++copies; break; }
        case 7: case 8: {
          int b = anyLive();
          if (a == b) { RosPointCloud2& r = *pool[size_t(a)].obj; RosPointCloud2& q = r; r = std::move(q); op = "self move " + std::to_string(a); break; }
          *pool[size_t(b)].obj = std::move(*pool[size_t(a)].obj);
          pool[size_t(b)].m = pool[size_t(a)].m;
          pool[size_t(a)].m.usable = false;
          op = "move assign " + std::to_string(b) + " = " + std::to_string(a);
          ++moves;
          break;
        }
        case 9: { int b = anyLive(); pool[size_t(b)].obj.reset(); op = "destroy " + std::to_string(b); break; }
        case 10: {
          int b = anyUsable();
          std::swap(*pool[size_t(a)].obj, *pool[size_t(b)].obj);
          if (a != b) std::swap(pool[size_t(a)].m, pool[size_t(b)].m);
          op = "swap " + std::to_string(a) + " " + std::to_string(b);
          break;
        }
        case 11: {  // through a growing vector and back
          std::vector<RosPointCloud2> v;
          v.push_back(*pool[size_t(a)].obj);
          const size_t more = s.draw(4);
          for (size_t i = 0; i < more; ++i) v.push_back(v[0]);
          *pool[size_t(a)].obj = more ? v.back() : std::move(v[0]);
          op = "vector round trip " + std::to_string(a);
          break;
        }
        case 12: {  // by value through a function
          auto f = [](RosPointCloud2 x) { return x; };
          *pool[size_t(a)].obj = f(*pool[size_t(a)].obj);
          op = "by value " + std::to_string(a);
          break;
        }
        default:  // an external view is assigned while an own buffer may remain
          makeExternal(pool[size_t(a)]);
          op = "assign external to " + std::to_string(a);
          break;
      }
      log << op << "; ";
      ctx.note(op);
      verify(op.c_str());
    }
    bool own = false;
    for (auto& t : pool) own = own || t.m.owned;
    ctx.nontrivial(own && copies + moves > 0);
    ctx.labelIf(own && copies > 0, "owned and copied");
    ctx.labelIf(own && moves > 0, "owned and moved");
    ctx.labelIf(externals.size() > 1, "several buffers");
  };
  return pbt::run(argc, argv, "C15",
      "A case is a history of up to 31 constructions, copies, moves, swaps, assignments (also self), preprocessing and destructions over a pool "
      "of messages, compared with a value model after every step. Non-trivial: an owned buffer existed and something was copied or moved.",
      {{"history", history, 120000, 2000000}});
}
