// C21: independent encoders, decoders and message conversions in several threads give the same results as one after the other,
// without data races, and always terminate.
#include <dlfcn.h>
#include <lz4.h>
#include <sched.h>
#include <zstd.h>

#include <condition_variable>
#include <mutex>
#include <thread>

#include "msg_gen.hpp"
using namespace gen;
using namespace cloudini_ros;

// The compressors are not instrumented: these wrappers access the same memory where the race detector sees it, and delay
// the compression at random to vary the schedule.
namespace sched_noise {
std::atomic<unsigned> level{0};
thread_local uint64_t state = 0;
std::atomic<uint64_t> next_seed{1};
inline unsigned rnd(unsigned n) {
  if (!state) state = pbt::mix(next_seed.fetch_add(1), 77);
  return unsigned(pbt::splitmix(state) % n);
}
inline void point() {
  const unsigned l = level.load(std::memory_order_relaxed);
  if (!l) return;
  const unsigned r = rnd(100);
  if (r < 10 * l) sched_yield();
  else if (r < 14 * l) usleep(rnd(60 * l));
}
inline uint64_t readAll(const void* p, size_t n) {
  const volatile uint8_t* b = static_cast<const volatile uint8_t*>(p);
  uint64_t s = 0;
  for (size_t i = 0; i < n; i += 8) s += b[i];
  if (n) s += b[n - 1];
  return s;
}
inline void writeAll(void* p, size_t n) {
  volatile uint8_t* b = static_cast<volatile uint8_t*>(p);
  for (size_t i = 0; i < n; i += 8) b[i] = b[i];
  if (n) b[n - 1] = b[n - 1];
}
}  // namespace sched_noise
extern "C" {
size_t ZSTD_compress(void* dst, size_t cap, const void* src, size_t n, int level) {
  using Fn = size_t (*)(void*, size_t, const void*, size_t, int);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "ZSTD_compress"));
  sched_noise::point();
  sched_noise::readAll(src, n);
  const size_t r = real(dst, cap, src, n, level);
  if (!ZSTD_isError(r)) sched_noise::writeAll(dst, r);
  sched_noise::point();
  sched_noise::readAll(src, n);
  return r;
}
int LZ4_compress_default(const char* src, char* dst, int n, int cap) {
  using Fn = int (*)(const char*, char*, int, int);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "LZ4_compress_default"));
  sched_noise::point();
  sched_noise::readAll(src, size_t(n));
  const int r = real(src, dst, n, cap);
  if (r > 0) sched_noise::writeAll(dst, size_t(r));
  sched_noise::point();
  sched_noise::readAll(src, size_t(n));
  return r;
}
}
namespace {
// One unit of work with the result it has when run alone. Inputs are shared between the threads, read only.
struct Job {
  int kind = 0;
  const Cloud* cloud = nullptr;
  const std::vector<uint8_t>*stream = nullptr, *raw_msg = nullptr, *scene = nullptr, *comp_msg = nullptr;
  bool into_vector = true;
  size_t calls = 1;  // per object
  std::vector<uint8_t> want;
};
const char* kKinds[] = {"encode", "decode", "compress message", "restore message", "preprocess message", "construct only", "failing encode", "parse header", "decode with one reused decoder"};

std::vector<uint8_t> mask(const Cloud& c, const uint8_t* data, size_t n) {  // bytes of the fields only
  std::vector<uint8_t> r;
  if (n != c.n * c.info.point_step) return {uint8_t(n), 1, 2, 3};
  for (size_t i = 0; i < c.n; ++i)
    for (auto& f : c.info.fields) r.insert(r.end(), data + i * c.info.point_step + f.offset, data + i * c.info.point_step + f.offset + szOf(f.type));
  return r;
}
std::vector<uint8_t> runJob(const Job& j) {
  std::vector<uint8_t> out;
  switch (j.kind) {
    case 0: {
      PointcloudEncoder e(j.cloud->info);
      for (size_t k = 0; k < j.calls; ++k) {
        if (j.into_vector) e.encode(j.cloud->view(), out);
        else {
          out.resize(MaxCompressedSize(j.cloud->info, j.cloud->n, true));
          BufferView v(out.data(), out.size());
          out.resize(e.encode(j.cloud->view(), v, true));
        }
      }
      break;
    }
    case 1:
    case 8: {
      ConstBufferView v(j.stream->data(), j.stream->size());
      EncodingInfo i = DecodeHeader(v);
      PointcloudDecoder d;
      for (size_t k = 0; k < (j.kind == 8 ? j.calls : 1); ++k) d.decode(i, v, out);
      return mask(*j.cloud, out.data(), out.size());
    }
    case 2: {
      RosPointCloud2 m = getDeserializedPointCloudMessage(viewOf(*j.raw_msg));
      EncodingInfo i = toEncodingInfo(m);
      i.encoding_opt = j.cloud->info.encoding_opt;
      i.compression_opt = j.cloud->info.compression_opt;
      i.use_threads = j.cloud->info.use_threads;
      convertPointCloud2ToCompressedCloud(m, i, out);
      break;
    }
    case 3: {
      RosPointCloud2 m = getDeserializedPointCloudMessage(viewOf(*j.comp_msg));
      convertCompressedCloudToPointCloud2(m, out);
      break;
    }
    case 4: {
      RosPointCloud2 m = getDeserializedPointCloudMessage(viewOf(*j.scene));
      for (auto& f : m.fields) f.resolution = 0.05f;
      applyVizLossyPreprocessing(m);
      out.assign(m.data.data(), m.data.data() + m.data.size());
      break;
    }
    case 5: {
      for (size_t k = 0; k < j.calls; ++k) PointcloudEncoder e(j.cloud->info);
      break;
    }
    case 6: {
      PointcloudEncoder e(j.cloud->info);
      std::vector<uint8_t> small(MaxCompressedSize(j.cloud->info, j.cloud->n, true) - 1);
      BufferView v(small.data(), small.size());
      try { e.encode(j.cloud->view(), v, true); } catch (const std::exception&) { out.push_back(1); }
      if (j.into_vector) e.encode(j.cloud->view(), out);
      break;
    }
    default: {
      for (size_t k = 0; k < j.calls; ++k) {
        ConstBufferView v(j.stream->data(), j.stream->size());
        EncodingInfo i = DecodeHeader(v);
        const std::string y = EncodingInfoToYAML(i);
        EncodeHeader(EncodingInfoFromYAML(y), out, k % 2 ? HeaderEncoding::BINARY : HeaderEncoding::YAML);
        out.insert(out.end(), y.begin(), y.end());
      }
    }
  }
  return out;
}

void concurrent(Src& s, Ctx& ctx) {
  sched_noise::level = unsigned(s.draw(4));
  const size_t nthreads = 1 + s.draw(8);
  InfoOpts o;
  o.versions = {5, 5, 4, 3};
  o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
  o.comps = {CompressionOption::ZSTD, CompressionOption::LZ4, CompressionOption::ZSTD, CompressionOption::NONE};
  o.max_fields = 4;
  struct Input {
    Cloud c;
    std::vector<uint8_t> stream, raw, comp, scene;
  };
  std::vector<Input> in(1 + s.draw(3));
  bool multi = false;
  for (auto& x : in) {
    NOpts n;
    n.small_w = 20; n.mid_w = 25; n.big_w = 5; n.probe_w = 5; n.chunk_w = 3; n.multi_w = 12;
    n.max = 80000;
    x.c = genCloud(s, ctx, o, n);
    if (!s.chance(1, 5)) x.c.info.use_threads = true;
    multi = multi || (x.c.n > 32768 && x.c.info.use_threads && x.c.info.compression_opt != CompressionOption::NONE);
    x.stream = encodeAll(x.c.info, x.c.view());
    x.raw = refcdr::write(genMsg(s, x.c));
    RosPointCloud2 m = getDeserializedPointCloudMessage(viewOf(x.raw));
    EncodingInfo i = toEncodingInfo(m);
    i.compression_opt = x.c.info.compression_opt;
    convertPointCloud2ToCompressedCloud(m, i, x.comp);
    {  // positions for the preprocessing, some of them in the same voxel
      Cloud c;
      c.info.point_step = 16;
      c.info.height = 1;
      c.n = 1 + s.draw(800);
      c.info.width = uint32_t(c.n);
      for (uint32_t a = 0; a < 3; ++a) {
        PointField f;
        f.name = std::string(1, char('x' + a));
        f.offset = 4 * a;
        f.type = FieldType::FLOAT32;
        c.info.fields.push_back(f);
      }
      c.data.resize(c.n * 16);
      Rng r(s.seed());
      const int64_t spread = s.pick({2, 20, 500});
      for (size_t k = 0; k < c.n; ++k)
        for (size_t a = 0; a < 3; ++a) {
          const float v = r.below(50) ? float(r.range(-spread, spread)) * 0.05f : NAN;
          memcpy(&c.data[16 * k + 4 * a], &v, 4);
        }
      x.scene = refcdr::write(genMsg(s, c));
    }
  }
  std::vector<std::vector<Job>> jobs(nthreads);
  size_t total = 0;
  for (auto& list : jobs) {
    list.resize(1 + s.draw(4));
    for (auto& j : list) {
      const Input& x = in[s.draw(in.size())];
      j.kind = int(s.weighted({6, 4, 3, 2, 4, 2, 2, 3, 1}));
      j.cloud = &x.c;
      j.stream = &x.stream;
      j.raw_msg = &x.raw;
      j.scene = &x.scene;
      j.comp_msg = &x.comp;
      j.into_vector = s.chance(1, 2);
      j.calls = 1 + s.draw(3);
      try { j.want = runJob(j); } catch (const std::exception& e) { ctx.fail("alone: ", kKinds[j.kind], ": ", e.what()); }
      ctx.label(kKinds[j.kind]);
      ++total;
    }
  }
  ctx.note(std::to_string(nthreads) + " threads, " + std::to_string(total) + " jobs");
  std::atomic<size_t> ready{0};
  std::mutex m;
  std::string failure;
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nthreads; ++t)
    ts.emplace_back([&, t] {
      ++ready;
      while (ready < nthreads) sched_yield();
      size_t k = 0;
      for (auto& j : jobs[t]) {
        std::string f;
        try {
          auto got = runJob(j);
          if (got != j.want) f = "the result differs from the one without concurrency";
        } catch (const std::exception& e) { f = e.what(); }
        if (!f.empty()) {
          std::lock_guard<std::mutex> l(m);
          failure = "thread " + std::to_string(t) + ", job " + std::to_string(k) + " (" + kKinds[j.kind] + "): " + f;
        }
        ++k;
      }
    });
  for (auto& t : ts) t.join();
  for (size_t i = 0; i < total; ++i) ctx.check();
  if (!failure.empty()) ctx.fail(failure);
  ctx.label(nthreads == 1 ? "1 thread" : nthreads <= 4 ? "2-4 threads" : "5-9 threads");
  ctx.labelIf(multi, "several chunks with compression thread");
  ctx.nontrivial(nthreads >= 2 && total >= 3);
}

// One encoder at a time: its compression thread against the caller, handed from thread to thread, destroyed at any point.
void lifecycle(Src& s, Ctx& ctx) {
  sched_noise::level = unsigned(1 + s.draw(3));
  InfoOpts o;
  o.versions = {5, 5, 4, 3};
  o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSLESS};
  o.comps = {CompressionOption::ZSTD, CompressionOption::LZ4};
  o.max_fields = 3;
  EncodingInfo info = genInfo(s, o);
  info.use_threads = true;
  const size_t steps = s.chance(1, 30) ? 30 + s.draw(300) : s.draw(6);
  std::vector<Cloud> clouds;
  std::vector<std::vector<uint8_t>> want;
  for (size_t k = 0; k < 2; ++k) {
    NOpts n;
    n.small_w = 30; n.mid_w = 20; n.big_w = 5; n.probe_w = 0; n.chunk_w = 3; n.multi_w = 15;
    n.max = 100000;
    size_t np = genN(s, n);
    while (np * (info.point_step + 8) > 2000000 && np > 64) np /= 2;
    clouds.push_back(genCloudFor(s, ctx, info, np));
    EncodingInfo i = info;
    i.use_threads = false;
    PointcloudEncoder e(i);
    std::vector<uint8_t> out;
    e.encode(clouds.back().view(), out);
    want.push_back(out);
  }
  auto e = std::make_unique<PointcloudEncoder>(info);
  ctx.note(std::to_string(steps) + " steps");
  for (size_t k = 0; k < steps; ++k) {
    const size_t w = s.draw(2);
    const int op = int(s.weighted({5, 3, 2, 1, 2}));
    std::vector<uint8_t> out;
    std::string err;
    auto work = [&] {
      try {
        if (op == 2) {
          std::vector<uint8_t> tiny(3);
          BufferView v(tiny.data(), tiny.size());
          bool threw = false;
          try { e->encode(clouds[w].view(), v, true); } catch (const std::exception&) { threw = true; }
          if (!threw) err = "a buffer of 3 bytes was accepted";
        } else if (op == 3) {
          e = std::make_unique<PointcloudEncoder>(info);  // destroys the old one
        } else {
          if (op == 4) usleep(useconds_t(20 * w));
          e->encode(clouds[w].view(), out);
          ctx.check();
          if (out != want[w]) err = "the result differs from the one without compression thread";
        }
      } catch (const std::exception& x) { err = x.what(); }
    };
    if (op == 1) std::thread(work).join();  // used in another thread
    else work();
    ctx.require(err.empty(), "step ", k, ": ", err);
  }
  e.reset();
  ctx.labelIf(steps == 0, "destroyed unused");
  ctx.labelIf(clouds[0].n > 32768 || clouds[1].n > 32768, "several chunks");
  ctx.nontrivial(steps >= 1);
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "C21",
      "A case runs generated jobs (encode, decode, message conversions, header parsing, constructing and destroying, failing calls) first alone, "
      "then from 1 to 9 threads at once on shared read-only inputs, with random delays, or drives one encoder and its compression thread through "
      "calls from different threads up to its destruction; with and without ThreadSanitizer. Non-trivial: two threads and three jobs, or one call.",
      {{"concurrent", concurrent, C21_Q1, C21_Q1 * 40, 60, true}, {"lifecycle", lifecycle, C21_Q2, C21_Q2 * 40, 60, true}});
}
