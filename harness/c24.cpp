// C24: failing allocations and thread creations surface as errors and leave the objects usable.
#include "fault.hpp"
#include "msg_gen.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace gen;
using namespace cloudini_ros;
namespace {
struct Result {
  bool threw = false, fired = false;
  std::string what;
};
// Runs f with the fault armed. Only std::exception may come out.
template <class F>
Result attempt(Ctx& ctx, const fault::Spec& s, int delay, F f) {
  Result r;
  fault::arm(s, delay);
  try {
    f();
  } catch (const std::exception&) {
    r.threw = true;
  } catch (...) {
    fault::disarm();
    ctx.fail("an exception of an unknown type comes out after ", s.str());
  }
  r.fired = fault::injected > 0;
  fault::disarm();
  return r;
}
// The indexes to try: all of them when few, otherwise both ends and a sample
std::vector<fault::Spec> plan(Src& s, const long n[3], size_t most) {
  std::vector<fault::Spec> all, out;
  for (int c = 0; c < 3; ++c)
    for (long i = 0; i < n[c]; ++i) all.push_back({c, i, 1});
  Rng r(s.seed());
  if (all.size() <= most) out = all;
  else {
    // other threads and thread creations are few: always tried
    for (auto& x : all)
      if (x.cls != fault::CALLER && out.size() < most / 2) out.push_back(x);
    std::vector<fault::Spec> c;
    for (auto& x : all)
      if (x.cls == fault::CALLER) c.push_back(x);
    const size_t left = most - out.size();
    std::set<size_t> idx;
    for (size_t i = 0; i < left / 3 && i < c.size(); ++i) { idx.insert(i); idx.insert(c.size() - 1 - i); }
    while (idx.size() < std::min(left, c.size())) idx.insert(r.below(c.size()));
    for (size_t i : idx) out.push_back(c[i]);
  }
  for (auto& x : out) {
    const uint64_t k = r.below(8);
    x.len = k == 0 ? -1 : k == 1 ? 2 + long(r.below(6)) : 1;
  }
  return out;
}
std::string diffAt(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) {
  if (a.size() != b.size()) return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size());
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i]) return "byte " + std::to_string(i);
  return "";
}
NOpts sizes(bool multi) {
  NOpts n;
  n.small_w = 25; n.mid_w = 20; n.big_w = 5; n.probe_w = 5;
  n.chunk_w = multi ? 10 : 2; n.multi_w = multi ? 40 : 3;
  n.max = 100000;
  return n;
}
InfoOpts infos() {
  InfoOpts o;
  o.versions = {5, 5, 4, 3};
  o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
  o.max_fields = 4;
  return o;
}

void encoder(Src& s, Ctx& ctx) {
  EncodingInfo info = genInfo(s, infos());
  info.use_threads = !s.chance(1, 5);
  size_t nA = genN(s, sizes(true));
  while (nA * (info.point_step + 8) > 2500000 && nA > 64) nA /= 2;
  size_t nB = s.chance(1, 2) ? nA : genN(s, sizes(false));
  while (nB * (info.point_step + 8) > 2500000 && nB > 64) nB /= 2;
  const Cloud a = genCloudFor(s, ctx, info, nA), b = genCloudFor(s, ctx, info, nB);
  auto fresh = [&](const Cloud& c) {
    PointcloudEncoder e(info);
    std::vector<uint8_t> r;
    e.encode(c.view(), r);
    return r;
  };
  const auto wantA = fresh(a), wantB = fresh(b);
  const bool into_vector = s.chance(1, 2), header = s.chance(1, 2), warm = s.chance(1, 3), in_ctor = s.chance(1, 6);
  const int delay = info.use_threads ? 1500 : 0;
  std::vector<uint8_t> out;
  size_t hs = PointcloudEncoder(info).getHeader().size();
  // one call into a buffer of the caller; returns the size
  auto call = [&](PointcloudEncoder& e, const Cloud& c) -> size_t {
    if (into_vector) return e.encode(c.view(), out);
    BufferView v(out.data(), out.size());
    return e.encode(c.view(), v, header);
  };
  auto prepare = [&](const Cloud& c) {
    if (into_vector) out.clear();
    else out.assign(MaxCompressedSize(info, c.n, header), 0xCD);
  };
  auto verify = [&](size_t r, const Cloud& c, const std::vector<uint8_t>& want, const std::string& when) {
    std::vector<uint8_t> w(want.begin() + (into_vector || header ? 0 : long(hs)), want.end());
    std::vector<uint8_t> got = out;
    if (into_vector) ctx.require(r == out.size(), when, ": returned ", r, " for a vector of ", out.size());
    else { ctx.require(r <= out.size(), when, ": returned ", r, " for a buffer of ", out.size()); got.resize(r); }
    ctx.check();
    const std::string d = diffAt(got, w);
    ctx.require(d.empty(), when, ": differs from a new encoder without faults: ", d, " (", c.n, " points)");
  };
  // how many events there are
  long n[3];
  {
    std::optional<PointcloudEncoder> e;
    if (!in_ctor) {
      e.emplace(info);
      if (warm) { prepare(b); call(*e, b); }
    }
    prepare(a);
    fault::arm({}, 0);
    if (in_ctor) e.emplace(info);
    call(*e, a);
    fault::disarm();
    for (int c = 0; c < 3; ++c) n[c] = fault::count[c];
  }
  auto todo = plan(s, n, 22);
  ctx.note(std::string("events: ") + std::to_string(n[0]) + " allocations of the caller, " + std::to_string(n[1]) + " of the worker, " + std::to_string(n[2]) + " threads; tried " + std::to_string(todo.size()));
  const int second = int(s.weighted({4, 3, 2, 2}));
  size_t threw = 0, in_worker = 0;
  for (auto& sp : todo) {
    const std::string when = sp.str() + (in_ctor ? " (construction and encode)" : warm ? " (second encode)" : " (first encode)");
    std::optional<PointcloudEncoder> e;
    if (!in_ctor) {
      e.emplace(info);
      if (warm) { prepare(b); call(*e, b); }
    }
    auto faulty = [&](const fault::Spec& f, const Cloud& c, const std::vector<uint8_t>& want, const std::string& w) {
      prepare(c);
      size_t r = 0;
      Result res = attempt(ctx, f, delay, [&] {
        if (!e) e.emplace(info);
        r = call(*e, c);
      });
      if (res.threw) {
        ctx.require(res.fired, w, ": an error without a fault");
        // the buffer belongs to the caller again
        std::fill(out.begin(), out.end(), 0x5A);
        if (info.use_threads) usleep(2 * delay + 1500);
        for (size_t i = 0; i < out.size(); ++i) ctx.require(out[i] == 0x5A, w, ": byte ", i, " of the caller's buffer is written after encode() has returned");
        ++threw;
        in_worker += f.cls == fault::OTHER;
      } else {
        verify(r, c, want, w + ", call reported no error");
      }
    };
    faulty(sp, a, wantA, when);
    if (second == 1 && e) faulty({fault::THREAD, 0, 1}, a, wantA, when + ", then thread creation fails");
    if (second == 2 && e) faulty({fault::OTHER, 0, -1}, b, wantB, when + ", then all worker allocations fail");
    if (second == 3 && e) faulty({fault::CALLER, long(sp.from % 3), -1}, a, wantA, when + ", then all allocations fail");
    if (!e) e.emplace(info);
    const bool bfirst = sp.from & 1;
    for (int k = 0; k < 2; ++k) {
      const bool useb = (k == 0) == bfirst;
      const Cloud& c = useb ? b : a;
      prepare(c);
      size_t r = 0;
      try {
        r = call(*e, c);
      } catch (const std::exception& x) {
        ctx.fail("after ", when, " encode() without faults fails: ", x.what());
      }
      verify(r, c, useb ? wantB : wantA, "call after " + when);
    }
  }
  ctx.labelIf(n[1] > 0, "worker allocates");
  ctx.labelIf(in_worker > 0, "worker failed");
  ctx.labelIf(in_ctor, "construction");
  ctx.labelIf(second != 0, "two faults in a row");
  ctx.labelIf(nA > 32768, "several chunks");
  ctx.labelIf(info.use_threads, "threads");
  ctx.nontrivial(threw > 0);
}

void decoder(Src& s, Ctx& ctx) {
  InfoOpts o = infos();
  o.threads_choice = false;
  const Cloud a = genCloud(s, ctx, o, sizes(false)), b = s.chance(1, 2) ? a : genCloud(s, ctx, o, sizes(false));
  const auto sa = encodeAll(a.info, a.view()), sb = encodeAll(b.info, b.view());
  const bool into_vector = s.chance(1, 2), warm = s.chance(1, 3), with_header = s.chance(1, 3);
  std::vector<uint8_t> out;
  auto headerOf = [](const std::vector<uint8_t>& st, ConstBufferView& v) {
    v = ConstBufferView(st.data(), st.size());
    return DecodeHeader(v);
  };
  ConstBufferView pa, pb;
  const EncodingInfo ia = headerOf(sa, pa), ib = headerOf(sb, pb);
  auto call = [&](PointcloudDecoder& d, bool first, bool parse) {
    ConstBufferView v = first ? pa : pb;
    EncodingInfo i = parse ? headerOf(first ? sa : sb, v) : EncodingInfo();
    const EncodingInfo& info = parse ? i : first ? ia : ib;
    if (into_vector) d.decode(info, v, out);
    else d.decode(info, v, BufferView(out.data(), out.size()));
  };
  auto prepare = [&](bool first) {
    if (into_vector) out.clear();
    else out.assign((first ? a : b).data.size(), 0);
  };
  auto fresh = [&](bool first) { PointcloudDecoder d; prepare(first); call(d, first, false); return out; };
  const auto wantA = fresh(true), wantB = fresh(false);
  auto same = [&](bool first, const std::string& when) {
    const Cloud& c = first ? a : b;
    const auto& want = first ? wantA : wantB;
    ctx.check();
    ctx.require(out.size() == want.size(), when, ": ", out.size(), " bytes instead of ", want.size());
    for (auto& f : c.info.fields)
      for (size_t i = 0; i < c.n; ++i)
        ctx.require(loadField(out.data(), c.info, f, i) == loadField(want.data(), c.info, f, i), when, ": point ", i, " field ", f.name, " (", tname(f.type), ") is wrong");
  };
  long n[3];
  {
    PointcloudDecoder d;
    if (warm) { prepare(false); call(d, false, false); }
    prepare(true);
    fault::arm({}, 0);
    call(d, true, with_header);
    fault::disarm();
    for (int c = 0; c < 3; ++c) n[c] = fault::count[c];
  }
  auto todo = plan(s, n, 60);
  ctx.note("events: " + std::to_string(n[0]) + " allocations; tried " + std::to_string(todo.size()));
  size_t threw = 0;
  for (auto& sp : todo) {
    const std::string when = sp.str() + (warm ? " (second decode)" : " (first decode)");
    PointcloudDecoder d;
    if (warm) { prepare(false); call(d, false, false); }
    for (int k = 0; k < 2; ++k) {
      prepare(true);
      Result res = attempt(ctx, k ? fault::Spec{fault::CALLER, long(sp.from / 2), -1} : sp, 0, [&] { call(d, true, with_header); });
      if (res.threw) { ctx.require(res.fired, when, ": an error without a fault"); ++threw; }
      else same(true, when + ", call reported no error");
      if (sp.from % 3) break;  // sometimes a second failure
    }
    for (int k = 0; k < 2; ++k) {
      const bool first = (k == 0) == bool(sp.from & 1);
      prepare(first);
      try {
        call(d, first, k);
      } catch (const std::exception& x) {
        ctx.fail("after ", when, " decode() without faults fails: ", x.what());
      }
      same(first, "call after " + when);
    }
  }
  ctx.labelIf(with_header, "header parsed as well");
  ctx.nontrivial(threw > 0);
}

// Message conversions, both directions, and preprocessing: the message object and the thread's scratch data stay usable.
void messages(Src& s, Ctx& ctx) {
  InfoOpts o = infos();
  o.versions = {5};
  o.threads_choice = false;
  o.max_fields = 5;
  Cloud c = genSmallCloud(s, ctx, o, s.chance(1, 20) ? 40000 : 300);
  refcdr::Msg m = genMsg(s, c);
  const auto raw = refcdr::write(m);
  RosPointCloud2 msg = getDeserializedPointCloudMessage(viewOf(raw));
  EncodingInfo enc = toEncodingInfo(msg);
  enc.encoding_opt = c.info.encoding_opt;
  enc.compression_opt = c.info.compression_opt;
  enc.use_threads = s.chance(1, 3);
  const int delay = enc.use_threads ? 1000 : 0;
  std::vector<uint8_t> want_c, want_r, want_v;
  convertPointCloud2ToCompressedCloud(msg, enc, want_c);
  RosPointCloud2 cmsg = getDeserializedPointCloudMessage(viewOf(want_c));
  convertCompressedCloudToPointCloud2(cmsg, want_r);
  auto bytes = [](const RosPointCloud2& p) { return std::vector<uint8_t>(p.data.data(), p.data.data() + p.data.size()); };
  RosPointCloud2 viz = getDeserializedPointCloudMessage(viewOf(raw));
  applyVizLossyPreprocessing(viz);
  want_v = bytes(viz);
  const size_t viz_fields = viz.fields.size();
  const int op = int(s.draw(4));
  static const char* names[] = {"compress", "decompress", "preprocess", "parse"};
  ctx.label(names[op]);
  std::vector<uint8_t> out;
  bool viz_ok = true;
  auto call = [&](RosPointCloud2& v) {
    switch (op) {
      case 0: convertPointCloud2ToCompressedCloud(msg, enc, out); break;
      case 1: convertCompressedCloudToPointCloud2(cmsg, out); break;
      case 2: applyVizLossyPreprocessing(v); break;
      default: v = getDeserializedPointCloudMessage(viewOf(want_c));
    }
  };
  auto check = [&](RosPointCloud2& v, const std::string& when) {
    ctx.check();
    if (op == 0) ctx.require(diffAt(out, want_c).empty(), when, ": compressed message differs: ", diffAt(out, want_c));
    if (op == 1) ctx.require(diffAt(out, want_r).empty(), when, ": message differs: ", diffAt(out, want_r));
    if (op == 2) ctx.require(v.fields.size() == viz_fields && diffAt(bytes(v), want_v).empty(), when, ": preprocessed message differs: ", diffAt(bytes(v), want_v));
    if (op == 3) ctx.require(v.fields.size() == cmsg.fields.size() && diffAt(bytes(v), bytes(cmsg)).empty(), when, ": parsed message differs");
  };
  long n[3];
  {
    RosPointCloud2 v = getDeserializedPointCloudMessage(viewOf(raw));
    out.clear();
    fault::arm({}, 0);
    call(v);
    fault::disarm();
    for (int k = 0; k < 3; ++k) n[k] = fault::count[k];
  }
  auto todo = plan(s, n, enc.use_threads ? 30 : 60);
  size_t threw = 0;
  for (auto& sp : todo) {
    RosPointCloud2 v = getDeserializedPointCloudMessage(viewOf(raw));
    out.clear();
    Result res = attempt(ctx, sp, delay, [&] { call(v); });
    if (res.threw) {
      ctx.require(res.fired, sp.str(), ": an error without a fault");
      ++threw;
      const uint8_t* p = out.data();
      std::fill(out.begin(), out.end(), 0x5A);
      if (enc.use_threads) usleep(2 * delay + 1000);
      for (size_t i = 0; i < out.size(); ++i) ctx.require(p[i] == 0x5A, sp.str(), ": byte ", i, " of the result is written after the call has returned");
    } else {
      check(v, sp.str() + ", call reported no error");
    }
    // the same again, without faults
    RosPointCloud2 w = getDeserializedPointCloudMessage(viewOf(raw));
    try {
      call(w);
    } catch (const std::exception& x) {
      ctx.fail("after ", sp.str(), " the same call without faults fails: ", x.what());
    }
    check(w, "call after " + sp.str());
  }
  (void)viz_ok;
  ctx.note(std::string(names[op]) + ": " + showMsg(m) + "; " + std::to_string(n[0]) + "+" + std::to_string(n[1]) + " allocations, " + std::to_string(todo.size()) + " tried");
  ctx.nontrivial(threw > 0);
}
}  // namespace
int main(int argc, char** argv) {
  { void* p = malloc(64); free(p); }
  return pbt::run(argc, argv, "C24",
      "A case runs one encode, decode or message conversion without faults to count its allocations (calling thread, other threads) and thread creations, "
      "then once per event (all of them, or a sample when many) with that event failing, alone or with the following ones, optionally followed by a second fault; "
      "each run is followed by fault-free calls on the same object compared with a new one. Non-trivial: at least one injected fault surfaced as an error.",
      {{"encoder", encoder, 300, 6000, 20, true}, {"decoder", decoder, 6000, 150000, 60}, {"messages", messages, 5000, 120000, 60, true}});
}
