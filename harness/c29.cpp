// C29: the ROS plugins, nodes and helpers transport clouds without losing anything.
#include <pcl/PCLPointCloud2.h>

#include <atomic>
#include <mutex>
#include <optional>
#include <thread>

#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "cloudini_ros/conversion_utils.hpp"
#include "capped_new.hpp"
#include "msg_gen.hpp"
#include "mutate.hpp"
using namespace gen;
std::shared_ptr<rclcpp::Node> vf_make_component(const rclcpp::NodeOptions& o);
namespace {
using Pc = sensor_msgs::msg::PointCloud2;
using Comp = point_cloud_interfaces::msg::CompressedPointCloud2;
const std::string kPc = "sensor_msgs/msg/PointCloud2", kComp = "point_cloud_interfaces/msg/CompressedPointCloud2";
struct Made {
  Cloud cloud;       // with the resolutions it is compressed with
  refcdr::Msg msg;   // the same as message
};
Made genMade(Src& s, Ctx& ctx, float res, size_t big = 20) {
  InfoOpts o;
  o.versions = {5};
  o.opts = {EncodingOptions::LOSSY};
  o.comps = {CompressionOption::ZSTD};
  o.threads_choice = false;
  o.max_fields = 5;
  EncodingInfo info = genInfoWide(s, o);
  for (auto& f : info.fields) {
    f.resolution.reset();
    if (f.type == FieldType::FLOAT32) f.resolution = res;
  }
  Made m;
  m.cloud = genCloudFor(s, ctx, info, s.chance(1, 10) ? 0 : fewPoints(1 + s.draw(s.chance(1, 200) ? 150000 : s.chance(1, big) ? 3000 : 60), info));
  if (m.cloud.n == 0 && s.chance(1, 2)) {  // a message of a publisher that has nothing to say yet
    if (s.chance(3, 4)) { info.fields.clear(); m.cloud.info.fields.clear(); }
    m.cloud.info.point_step = s.chance(3, 4) ? 0 : m.cloud.info.point_step;
    if (s.chance(1, 2)) m.cloud.info.width = 0;
    ctx.label("blank message");
  }
  m.msg = genMsg(s, m.cloud);
  m.msg.le = true;
  for (size_t i = 0; i < info.fields.size(); ++i) m.msg.fields[i].name = info.fields[i].name;
  return m;
}
template <typename M> void metaTo(const refcdr::Msg& a, M& m) {
  m.header.stamp.sec = a.sec;
  m.header.stamp.nanosec = a.nsec;
  m.header.frame_id = a.frame;
  m.height = a.height;
  m.width = a.width;
  for (auto& f : a.fields) {
    sensor_msgs::msg::PointField g;
    g.name = f.name;
    g.offset = f.offset;
    g.datatype = f.type;
    g.count = f.count;
    m.fields.push_back(g);
  }
  m.is_bigendian = a.bigendian;
  m.point_step = a.point_step;
  m.row_step = a.row_step;
  m.is_dense = a.dense;
}
template <typename M> refcdr::Msg metaFrom(const M& m) {
  refcdr::Msg a;
  a.le = true;
  a.sec = m.header.stamp.sec;
  a.nsec = m.header.stamp.nanosec;
  a.frame = m.header.frame_id;
  a.height = m.height;
  a.width = m.width;
  for (auto& f : m.fields) {
    refcdr::Field g;
    g.name = f.name;
    g.offset = f.offset;
    g.type = f.datatype;
    g.count = f.count;
    a.fields.push_back(g);
  }
  a.bigendian = m.is_bigendian;
  a.point_step = m.point_step;
  a.row_step = m.row_step;
  a.dense = m.is_dense;
  return a;
}
Pc toPc(const refcdr::Msg& a) {
  Pc m;
  metaTo(a, m);
  m.data = a.data;
  return m;
}
Comp toComp(const refcdr::Msg& a) {
  Comp m;
  metaTo(a, m);
  m.compressed_data = a.data;
  m.format = a.format;
  return m;
}
refcdr::Msg fromComp(const Comp& m) {
  refcdr::Msg a = metaFrom(m);
  a.compressed = true;
  a.data = m.compressed_data;
  a.format = m.format;
  return a;
}
// What the library's message conversion makes of it
std::vector<uint8_t> compressedMsg(const Made& m) {
  const auto raw = refcdr::write(m.msg);
  auto pc = cloudini_ros::getDeserializedPointCloudMessage(viewOf(raw));
  for (size_t i = 0; i < pc.fields.size(); ++i) pc.fields[i].resolution = m.cloud.info.fields[i].resolution;
  std::vector<uint8_t> out;
  cloudini_ros::convertPointCloud2ToCompressedCloud(pc, cloudini_ros::toEncodingInfo(pc), out);
  return out;
}
refcdr::Msg readBack(Ctx& ctx, const std::vector<uint8_t>& b, bool compressed, const char* what) {
  try {
    return refcdr::read(b, compressed);
  } catch (const std::exception& e) {
    ctx.fail(what, ": not a well-formed message: ", e.what());
  }
}
// The message compressed by the plugin restores with the library, with the helper, with an independent reader
void checkCompressed(Ctx& ctx, const Made& m, const refcdr::Msg& c, const char* what) {
  std::string d = sameMeta(m.msg, c);
  ctx.check();
  ctx.require(d.empty(), what, ": ", d, " differs");
  ctx.require(c.format == "cloudini", what, ": format is '", c.format, "'");
  if (m.cloud.n) { const auto dec = decodeAll(c.data); checkSame(ctx, m.cloud, dec.data.data(), dec.data.size(), what); };
  const auto bytes = refcdr::write(c);
  auto pc = cloudini_ros::getDeserializedPointCloudMessage(viewOf(bytes));
  std::vector<uint8_t> out;
  cloudini_ros::convertCompressedCloudToPointCloud2(pc, out);
  const refcdr::Msg r = readBack(ctx, out, false, what);
  d = sameMeta(m.msg, r);
  ctx.require(d.empty(), what, ", restored: ", d, " differs");
  checkSame(ctx, m.cloud, r.data.data(), r.data.size(), what);
}

void helpers(Src& s, Ctx& ctx) {
  const float res = genRes(s);
  const Made m = genMade(s, ctx, res);
  const Pc pc = toPc(m.msg);
  // description
  const EncodingInfo info = Cloudini::ConvertToEncodingInfo(pc, res);
  ctx.check();
  ctx.require(info.width == m.cloud.info.width && info.height == m.cloud.info.height && info.point_step == m.cloud.info.point_step, "dimensions of the description");
  ctx.require(info.fields.size() == m.cloud.info.fields.size(), "number of fields");
  for (size_t i = 0; i < info.fields.size(); ++i) {
    auto &f = info.fields[i], &g = m.cloud.info.fields[i];
    ctx.require(f.name == g.name && f.offset == g.offset && f.type == g.type && f.resolution == g.resolution, "field ", i, " of the description");
  }
  // view of the message
  const auto view = Cloudini::ConvertToRosPointCloud2(pc);
  const auto raw = refcdr::write(m.msg);
  const auto want = cloudini_ros::getDeserializedPointCloudMessage(viewOf(raw));
  ctx.require(view.ros_header.stamp_sec == want.ros_header.stamp_sec && view.ros_header.stamp_nsec == want.ros_header.stamp_nsec && view.ros_header.frame_id == want.ros_header.frame_id, "header of the view");
  ctx.require(view.height == want.height && view.width == want.width && view.point_step == want.point_step && view.row_step == want.row_step && view.is_dense == want.is_dense && view.is_bigendian == want.is_bigendian, "metadata of the view");
  ctx.require(view.fields == want.fields, "fields of the view");
  ctx.require(view.data.data() == pc.data.data() && view.data.size() == pc.data.size(), "data of the view");
  // serialized
  std::vector<uint8_t> out(s.draw(100), 0xAA);
  Cloudini::SerializeCompressedPointCloud2(pc, res, out);
  const refcdr::Msg c = readBack(ctx, out, true, "SerializeCompressedPointCloud2");
  checkCompressed(ctx, m, c, "SerializeCompressedPointCloud2");
  // description of the compressed one
  Comp comp = toComp(c);
  if (m.cloud.n) {
    const EncodingInfo e = Cloudini::ReadEncodingInfo(comp);
    ctx.require(e.width == info.width && e.height == info.height && e.fields == info.fields, "ReadEncodingInfo: the description differs");
  }
  comp.format = s.pick({"", "draco", "Cloudini", "cloudini2"});
  bool threw = false;
  try { Cloudini::ReadEncodingInfo(comp); } catch (const std::exception&) { threw = true; }
  ctx.require(threw, "ReadEncodingInfo accepts the format '", comp.format, "'");
  ctx.nontrivial(m.cloud.n > 0);
}

// One publisher and one subscriber for a sequence of messages
void plugins(Src& s, Ctx& ctx) {
  cloudini_point_cloud_transport::CloudiniPublisher pub;
  cloudini_point_cloud_transport::CloudiniSubscriber sub;
  ctx.require(pub.getDataType() == kComp && sub.getDataType() == kComp, "data type");
  ctx.require(pub.getTransportName() == sub.getTransportName(), "transport name");
  float res = 0.001f;
  const bool declare = s.chance(3, 4);
  if (declare) {
    if (s.chance(1, 2)) {
      const double v = s.pick({0.01, 0.25, 1.0});
      res = float(v);
      pub.overrides["cloudini_resolution"] = v;
    }
    pub.declareParameters("points");
    sub.declareParameters();
  }
  const size_t steps = s.chance(1, 60) ? 30 + s.draw(200) : 1 + s.draw(6);
  size_t good = 0, bad = 0;
  for (size_t k = 0; k < steps; ++k) {
    if (declare && s.chance(1, 4)) {
      const double v = s.pick({0.001, 0.01, 0.5, 0.125});
      std::vector<rclcpp::Parameter> p;
      if (s.chance(1, 3)) p.emplace_back("points.cloudini.other", int64_t(3));
      p.emplace_back(s.chance(1, 2) ? "cloudini_resolution" : "points.cloudini.cloudini_resolution", v);
      const auto r = pub.change(p);
      ctx.require(r.successful, "the change of the resolution was refused");
      res = float(v);
      ctx.label("resolution changed");
    }
    const Made m = genMade(s, ctx, res);
    Comp comp;
    if (s.chance(2, 3)) {
      const auto r = pub.encodeTyped(toPc(m.msg));
      ctx.require(bool(r) && r.value().has_value(), "encodeTyped returned nothing");
      comp = *r.value();
      checkCompressed(ctx, m, fromComp(comp), "encodeTyped");
      if (m.cloud.n) {
        const EncodingInfo e = Cloudini::ReadEncodingInfo(comp);
        ctx.require(e.width == m.cloud.info.width && e.height == m.cloud.info.height, "ReadEncodingInfo: dimensions");
      }
    } else {  // from somebody else
      comp = toComp(readBack(ctx, compressedMsg(m), true, "compressed message"));
      ctx.label("message of the library");
    }
    if (s.chance(1, 3) && m.cloud.n) {  // a damaged one in between
      Comp x = comp;
      const int how = int(s.draw(7));
      switch (how) {
        case 0: x.width += 1; break;
        case 1: x.height = x.height > 1 ? x.height - 1 : 77; break;
        case 2: x.point_step += 1; break;
        case 3: if (x.fields.empty()) throw pbt::Discard{}; x.fields.pop_back(); break;
        case 4: x.fields[s.draw(x.fields.size())].offset += 1; break;
        case 5: x.fields[s.draw(x.fields.size())].datatype ^= 3; break;
        default:
          x.compressed_data.resize(s.chance(1, 4) ? 0 : s.draw(x.compressed_data.size()));
          break;
      }
      bool threw = false;
      try {
        const auto r = sub.decodeTyped(x);
        threw = !r || !r.value();
      } catch (const std::exception&) { threw = true; }
      ctx.check();
      ctx.require(threw, "damage ", how, " was not noticed (", x.compressed_data.size(), " of ", comp.compressed_data.size(), " bytes)");
      ++bad;
    }
    const auto r = sub.decodeTyped(comp);
    ctx.require(bool(r) && r.value().has_value() && *r.value(), "decodeTyped returned nothing");
    const Pc& back = **r.value();
    const std::string d = sameMeta(m.msg, metaFrom(back));
    ctx.check();
    ctx.require(d.empty(), "decodeTyped: ", d, " differs");
    checkSame(ctx, m.cloud, back.data.data(), back.data.size(), "decodeTyped");
    good += m.cloud.n > 0;
  }
  ctx.labelIf(bad > 0, "damaged message in between");
  ctx.nontrivial(good > 1);
}

std::vector<uint8_t> damaged(Src& s, std::vector<uint8_t> b) {
  if (s.chance(1, 3)) b.resize(s.draw(b.size() + 1));
  else for (size_t i = 1 + s.draw(3); i; --i) mut::edit(s, b, 0, b.size());
  return b;
}
// The node that compresses or restores a topic
void node(Src& s, Ctx& ctx) {
  rclcpp::Bus::get() = {};
  const bool compressing = s.chance(1, 2);
  rclcpp::NodeOptions o;
  if (!compressing || s.chance(1, 2)) o.append_parameter_override("compressing", compressing);
  const std::string in = s.chance(1, 2) ? "/points" : "/lidar/top";
  if (in != "/points") o.append_parameter_override("topic_input", in);
  std::string out = in + (compressing ? "/compressed" : "/decompressed");
  if (s.chance(1, 2)) {
    out = "/out";
    o.append_parameter_override("topic_output", out);
  }
  float res = 0.001f;
  if (s.chance(1, 2)) {
    res = genRes(s);
    o.append_parameter_override("resolution", double(res));
  }
  if (s.chance(1, 2)) o.append_parameter_override("log_compression_stats", false);
  // what the publishers of the input offer
  const size_t np = s.draw(4);
  bool all_reliable = true, all_latched = true;
  for (size_t i = 0; i < np; ++i) {
    rclcpp::QoS q(5);
    if (s.chance(1, 2)) q.best_effort();
    if (s.chance(1, 2)) q.transient_local();
    all_reliable = all_reliable && q.get_rmw_qos_profile().reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE;
    all_latched = all_latched && q.get_rmw_qos_profile().durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
    rclcpp::Bus::get().offers[in].emplace_back(q);
  }
  auto n = vf_make_component(o);
  auto& bus = rclcpp::Bus::get();
  ctx.require(bus.subscriptions.size() == 1 && bus.publishers.size() == 1, "subscriptions and publishers");
  auto sub = bus.subscriptions[0].lock();
  auto pub = bus.publishers[0].lock();
  ctx.require(sub && pub, "the node does not keep them");
  ctx.require(sub->topic == in && pub->topic == out, "topics ", sub->topic, " -> ", pub->topic);
  ctx.require(sub->type == (compressing ? kPc : kComp) && pub->type == (compressing ? kComp : kPc), "types ", sub->type, " -> ", pub->type);
  if (np) {  // a request that none of the publishers would refuse
    ctx.require(all_reliable || sub->qos.get_rmw_qos_profile().reliability == RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, "reliability that some publisher does not offer");
    ctx.require(all_latched || sub->qos.get_rmw_qos_profile().durability == RMW_QOS_POLICY_DURABILITY_VOLATILE, "durability that some publisher does not offer");
  }
  const size_t steps = s.chance(1, 60) ? 30 + s.draw(200) : 1 + s.draw(6);
  size_t good = 0, bad = 0;
  for (size_t k = 0; k < steps; ++k) {
    const Made m = genMade(s, ctx, res);
    const auto raw = compressing ? refcdr::write(m.msg) : compressedMsg(m);
    const size_t had = pub->published.size();
    if (s.chance(1, 4)) {
      const auto b = damaged(s, raw);
      try { sub->callback(std::make_shared<rclcpp::SerializedMessage>(b)); } catch (const std::exception&) {}
      ++bad;
      pub->published.resize(std::min(pub->published.size(), had));
    }
    pub->subscribers = s.chance(1, 6) ? 0 : 1 + s.draw(3);
    sub->callback(std::make_shared<rclcpp::SerializedMessage>(raw));
    ctx.check();
    ctx.require(pub->published.size() == had + (pub->subscribers ? 1 : 0), "published ", pub->published.size() - had, " messages for ", pub->subscribers, " subscribers");
    if (!pub->subscribers) continue;
    const refcdr::Msg r = readBack(ctx, pub->published.back(), compressing, "published message");
    if (compressing) checkCompressed(ctx, m, r, "published message");
    else {
      const std::string d = sameMeta(m.msg, r);
      ctx.require(d.empty(), "published message: ", d, " differs");
      checkSame(ctx, m.cloud, r.data.data(), r.data.size(), "published message");
    }
    ++good;
  }
  ctx.label(compressing ? "compressing" : "restoring");
  ctx.labelIf(bad > 0, "damaged message in between");
  ctx.nontrivial(good > 1);
}

// The subscriber that delivers PCL clouds from a pool
void subscriberPcl(Src& s, Ctx& ctx) {
  rclcpp::Bus::get() = {};
  auto n = std::make_shared<rclcpp::Node>("n");
  struct Held {
    pcl::PCLPointCloud2::Ptr cloud;
    Made made;
  };
  std::vector<Held> held;
  pcl::PCLPointCloud2::Ptr last;
  const std::string topic = s.pick({"/points", "/a/b"});
  auto cb = [&](const pcl::PCLPointCloud2::Ptr& c) {
    if (last) ctx.fail("called twice for one message");
    last = c;
  };
  std::optional<cloudini_ros::CloudiniSubscriberPCL> sub;
  if (s.chance(1, 2)) sub.emplace(n, topic, cb);
  else sub.emplace(n.get(), topic, cb);
  auto base = std::dynamic_pointer_cast<rclcpp::GenericSubscription>(sub->getSubscription());
  ctx.require(base && base->topic == topic && base->type == kComp && sub->getTopicName() == topic, "subscription");
  auto callback = base->callback;
  auto verify = [&](const Held& h, const char* when) {
    ctx.check();
    auto& p = *h.cloud;
    ctx.require(p.width == h.made.msg.width && p.height == h.made.msg.height, when, ": dimensions ", p.width, "x", p.height);
    ctx.require(p.fields.size() == h.made.msg.fields.size(), when, ": ", p.fields.size(), " fields");
    for (size_t i = 0; i < p.fields.size(); ++i) {
      auto& f = h.made.msg.fields[i];
      ctx.require(p.fields[i].name == f.name && p.fields[i].offset == f.offset && p.fields[i].datatype == f.type && p.fields[i].count == f.count, when, ": field ", i);
    }
    ctx.require(p.point_step == h.made.msg.point_step, when, ": point_step");
    ctx.require(p.row_step == h.made.msg.row_step && !p.is_bigendian, when, ": row_step ", p.row_step, ", is_bigendian ", int(p.is_bigendian));
    ctx.require(p.header.frame_id == h.made.msg.frame, when, ": frame '", p.header.frame_id, "' instead of '", h.made.msg.frame, "'");
    ctx.require(p.header.stamp == uint64_t(int64_t(h.made.msg.sec) * 1000000 + h.made.msg.nsec / 1000), when, ": stamp ", p.header.stamp);
    ctx.require(bool(p.is_dense) == h.made.msg.dense, when, ": is_dense");
    checkSame(ctx, h.made.cloud, p.data.data(), p.data.size(), when);
  };
  const size_t steps = s.chance(1, 60) ? 30 + s.draw(200) : 1 + s.draw(14);
  size_t bad = 0, delivered = 0, most = 0;
  for (size_t k = 0; k < steps; ++k) {
    switch (s.weighted({6, 2, 1})) {
      case 0: {
        const Made m = genMade(s, ctx, genRes(s), 60);
        last.reset();
        callback(std::make_shared<rclcpp::SerializedMessage>(compressedMsg(m)));
        ctx.require(last != nullptr, "the callback was not called for a cloud of ", m.cloud.n, " points");
        Held h{last, m};
        last.reset();
        verify(h, "delivered cloud");
        ++delivered;
        if (s.chance(2, 3)) held.push_back(h);
        break;
      }
      case 1:
        if (!held.empty()) {
          const size_t i = s.draw(held.size());
          verify(held[i], "cloud that was kept");
          if (s.chance(1, 2)) {  // the receiver may do what it likes with its cloud
            auto& p = *held[i].cloud;
            p.is_bigendian = true;
            p.is_dense = !p.is_dense;
            p.row_step = p.point_step = 1;
            p.header.frame_id = "changed by the receiver";
            std::fill(p.data.begin(), p.data.end(), uint8_t(0x5A));
            for (auto& f : p.fields) f.count = 9;
          }
          held.erase(held.begin() + long(i));
        }
        break;
      default: {
        const Made m = genMade(s, ctx, 0.001f, 60);
        last.reset();
        const size_t errors = rclcpp::Log::get().errors;
        if (s.chance(1, 3)) {  // the compressed data got lost
          refcdr::Msg x = readBack(ctx, compressedMsg(m), true, "compressed message");
          x.data.clear();
          callback(std::make_shared<rclcpp::SerializedMessage>(refcdr::write(x)));
          if (m.cloud.n) ctx.require(last == nullptr, "a cloud of ", m.cloud.n, " points without data was delivered");
        } else
          callback(std::make_shared<rclcpp::SerializedMessage>(damaged(s, compressedMsg(m))));
        ctx.require(last != nullptr || rclcpp::Log::get().errors > errors, "a damaged message was neither delivered nor reported");
        last.reset();
        ++bad;
        break;
      }
    }
    most = std::max(most, held.size());
  }
  const bool outlive = s.chance(1, 2) && !held.empty();
  if (outlive) {  // clouds are kept longer than the subscriber lives
    callback = nullptr;
    base.reset();
    sub.reset();
    ctx.label("clouds outlive the subscriber");
  }
  for (auto& h : held) verify(h, "cloud that was kept");
  held.clear();
  last.reset();
  ctx.labelIf(most > 4, "more clouds than the pool keeps");
  ctx.labelIf(bad > 0, "damaged message in between");
  ctx.nontrivial(delivered > 1);
}

// Clouds are released by another thread while new ones arrive
void release(Src& s, Ctx& ctx) {
  rclcpp::Bus::get() = {};
  rclcpp::Node n("n");
  std::vector<pcl::PCLPointCloud2::Ptr> box;
  std::mutex mu;
  const Made m = genMade(s, ctx, 0.01f, 1000);
  if (!m.cloud.n) throw pbt::Discard{};
  const auto raw = compressedMsg(m);
  size_t delivered = 0;
  bool wrong = false;
  std::vector<uint8_t> want;
  {
    auto sub = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(&n, "/p", [&](const pcl::PCLPointCloud2::Ptr& c) {
      if (!delivered++) want = c->data;
      else if (c->data != want) wrong = true;
      std::lock_guard<std::mutex> l(mu);
      box.push_back(c);
    });
    auto base = std::dynamic_pointer_cast<rclcpp::GenericSubscription>(sub->getSubscription());
    std::atomic<bool> stop{false};
    std::thread t([&] {
      for (;;) {
        const bool last = stop;
        std::vector<pcl::PCLPointCloud2::Ptr> mine;
        { std::lock_guard<std::mutex> l(mu); mine.swap(box); }
        for (auto& c : mine) if (c->data != want) wrong = true;
        mine.clear();
        if (last) break;
      }
    });
    const size_t k = 5 + s.draw(60);
    for (size_t i = 0; i < k; ++i) base->callback(std::make_shared<rclcpp::SerializedMessage>(raw));
    const bool early = s.chance(1, 2);
    if (early) { base.reset(); sub.reset(); }
    stop = true;
    t.join();
    ctx.require(delivered == k, delivered, " clouds for ", k, " messages");
  }
  box.clear();
  ctx.check();
  ctx.require(!wrong, "a cloud in use was altered");
  ctx.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "C29",
      "A case is a sequence of messages through the transport plugins, the converter node, the PCL subscriber or the conversion helpers, over stand-ins for the ROS "
      "headers, with damaged messages and parameter changes in between. Non-trivial: at least two messages with points (one for the helpers).",
      {{"helpers", helpers, 8000, 100000}, {"plugins", plugins, 6000, 80000}, {"node", node, 5000, 60000}, {"subscriber_pcl", subscriberPcl, 4000, 50000},
       pbt::Prop{"release", release, 1200, 6000, 60, true}});
}
