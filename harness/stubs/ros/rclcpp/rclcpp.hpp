// Stand-in for the parts of rclcpp that are used: topics are recorded, callbacks are called by the harness.
#pragma once
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#define RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT 0
#define RMW_QOS_POLICY_RELIABILITY_RELIABLE 1
#define RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT 2
#define RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT 0
#define RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL 1
#define RMW_QOS_POLICY_DURABILITY_VOLATILE 2
struct rmw_qos_profile_t {
  size_t depth = 10;
  int reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  int durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
};
inline const rmw_qos_profile_t rmw_qos_profile_default{};
struct rcl_serialized_message_t {
  uint8_t* buffer = nullptr;
  size_t buffer_length = 0;
  size_t buffer_capacity = 0;
};
namespace rcl_interfaces::msg {
struct SetParametersResult {
  bool successful = false;
  std::string reason;
};
struct ParameterType {
  enum : uint8_t { PARAMETER_NOT_SET = 0, PARAMETER_BOOL = 1, PARAMETER_INTEGER = 2, PARAMETER_DOUBLE = 3, PARAMETER_STRING = 4 };
};
struct IntegerRange {
  int64_t from_value = 0, to_value = 0;
  uint64_t step = 0;
  IntegerRange& set__from_value(int64_t v) { from_value = v; return *this; }
  IntegerRange& set__to_value(int64_t v) { to_value = v; return *this; }
  IntegerRange& set__step(uint64_t v) { step = v; return *this; }
};
struct FloatingPointRange {
  double from_value = 0, to_value = 0, step = 0;
  FloatingPointRange& set__from_value(double v) { from_value = v; return *this; }
  FloatingPointRange& set__to_value(double v) { to_value = v; return *this; }
  FloatingPointRange& set__step(double v) { step = v; return *this; }
};
struct ParameterDescriptor {
  std::string name;
  uint8_t type = 0;
  std::string description, additional_constraints;
  bool read_only = false, dynamic_typing = false;
  std::vector<FloatingPointRange> floating_point_range;
  std::vector<IntegerRange> integer_range;
  ParameterDescriptor& set__integer_range(const std::vector<IntegerRange>& r) { integer_range = r; return *this; }
  ParameterDescriptor& set__floating_point_range(const std::vector<FloatingPointRange>& r) { floating_point_range = r; return *this; }
};
}  // namespace rcl_interfaces::msg
namespace rclcpp {
using ParameterValue = std::variant<std::monostate, bool, int64_t, double, std::string>;
class Parameter {
 public:
  Parameter() = default;
  Parameter(std::string n, ParameterValue v) : name_(std::move(n)), value_(std::move(v)) {}
  const std::string& get_name() const { return name_; }
  bool as_bool() const { return std::get<bool>(value_); }
  int64_t as_int() const { return std::get<int64_t>(value_); }
  double as_double() const { return std::get<double>(value_); }
  std::string as_string() const { return std::get<std::string>(value_); }
  const ParameterValue& value() const { return value_; }

 private:
  std::string name_;
  ParameterValue value_;
};
class Logger {};
struct Log {  // counts what was logged
  static Log& get() { static Log l; return l; }
  size_t errors = 0, warnings = 0, infos = 0;
};
template <typename... A> void logged(size_t& n, A&&...) { ++n; }
#define RCLCPP_INFO(logger, ...) ((void)(logger), ::rclcpp::logged(::rclcpp::Log::get().infos, __VA_ARGS__))
#define RCLCPP_WARN(logger, ...) ((void)(logger), ::rclcpp::logged(::rclcpp::Log::get().warnings, __VA_ARGS__))
#define RCLCPP_ERROR(logger, ...) ((void)(logger), ::rclcpp::logged(::rclcpp::Log::get().errors, __VA_ARGS__))
#define RCLCPP_DEBUG(logger, ...) ((void)(logger), ::rclcpp::logged(::rclcpp::Log::get().infos, __VA_ARGS__))
#define RCLCPP_FATAL(logger, ...) RCLCPP_ERROR(logger, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(logger, ...) RCLCPP_INFO(logger, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(logger, ...) RCLCPP_WARN(logger, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(logger, ...) RCLCPP_ERROR(logger, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE(logger, ...) RCLCPP_DEBUG(logger, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(logger, clock, ms, ...) ((void)(clock), (void)(ms), RCLCPP_INFO(logger, __VA_ARGS__))
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) ((void)(clock), (void)(ms), RCLCPP_WARN(logger, __VA_ARGS__))
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) ((void)(clock), (void)(ms), RCLCPP_ERROR(logger, __VA_ARGS__))
#define RCLCPP_DEBUG_THROTTLE(logger, clock, ms, ...) ((void)(clock), (void)(ms), RCLCPP_DEBUG(logger, __VA_ARGS__))
#define VF_RCL_STREAM(macro, logger, expr) do { std::ostringstream vf_o; vf_o << expr; macro(logger, "%s", vf_o.str().c_str()); } while (0)
#define RCLCPP_INFO_STREAM(logger, expr) VF_RCL_STREAM(RCLCPP_INFO, logger, expr)
#define RCLCPP_WARN_STREAM(logger, expr) VF_RCL_STREAM(RCLCPP_WARN, logger, expr)
#define RCLCPP_ERROR_STREAM(logger, expr) VF_RCL_STREAM(RCLCPP_ERROR, logger, expr)
#define RCLCPP_DEBUG_STREAM(logger, expr) VF_RCL_STREAM(RCLCPP_DEBUG, logger, expr)
class Time {
 public:
  int64_t nanoseconds() const { return 0; }
  double seconds() const { return 0; }
};
class Clock {
 public:
  using SharedPtr = std::shared_ptr<Clock>;
  Time now() const { return {}; }
};
inline Logger get_logger(const std::string&) { return {}; }
class QoS {
 public:
  QoS& keep_last(size_t n) { p_.depth = n; return *this; }
  QoS& durability_system_default() { p_.durability = RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT; return *this; }
  explicit QoS(size_t depth) { p_.depth = depth; }
  QoS& reliable() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE; return *this; }
  QoS& best_effort() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT; return *this; }
  QoS& transient_local() { p_.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL; return *this; }
  QoS& durability_volatile() { p_.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE; return *this; }
  rmw_qos_profile_t& get_rmw_qos_profile() { return p_; }
  const rmw_qos_profile_t& get_rmw_qos_profile() const { return p_; }

 private:
  rmw_qos_profile_t p_;
};
class TopicEndpointInfo {
 public:
  explicit TopicEndpointInfo(QoS q) : q_(q) {}
  const QoS& qos_profile() const { return q_; }

 private:
  QoS q_;
};
class SerializedMessage {  // owns the buffer, as the real one
 public:
  SerializedMessage() = default;
  explicit SerializedMessage(const std::vector<uint8_t>& b) {
    m_.buffer = static_cast<uint8_t*>(malloc(b.size() ? b.size() : 1));
    for (size_t i = 0; i < b.size(); ++i) m_.buffer[i] = b[i];
    m_.buffer_length = m_.buffer_capacity = b.size();
  }
  SerializedMessage(const SerializedMessage&) = delete;
  SerializedMessage& operator=(const SerializedMessage&) = delete;
  explicit SerializedMessage(size_t capacity) { reserve(capacity); }
  explicit SerializedMessage(const rcl_serialized_message_t& o) {
    reserve(o.buffer_length);
    for (size_t i = 0; i < o.buffer_length; ++i) m_.buffer[i] = o.buffer[i];
    m_.buffer_length = o.buffer_length;
  }
  ~SerializedMessage() { free(m_.buffer); }
  void reserve(size_t n) {
    if (n <= m_.buffer_capacity && m_.buffer) return;
    void* q = realloc(m_.buffer, n ? n : 1);
    if (!q) throw std::bad_alloc();
    m_.buffer = static_cast<uint8_t*>(q);
    m_.buffer_capacity = n;
  }
  size_t capacity() const { return m_.buffer_capacity; }
  rcl_serialized_message_t release_rcl_serialized_message() {
    auto r = m_;
    m_ = {};
    return r;
  }
  rcl_serialized_message_t& get_rcl_serialized_message() { return m_; }
  const rcl_serialized_message_t& get_rcl_serialized_message() const { return m_; }
  size_t size() const { return m_.buffer_length; }

 private:
  rcl_serialized_message_t m_;
};
class SubscriptionBase {
 public:
  using SharedPtr = std::shared_ptr<SubscriptionBase>;
  virtual ~SubscriptionBase() = default;
  std::string topic, type;
  QoS qos{1};
  std::function<void(std::shared_ptr<SerializedMessage>)> callback;
  const char* get_topic_name() const { return topic.c_str(); }
};
class GenericSubscription : public SubscriptionBase {
 public:
  using SharedPtr = std::shared_ptr<GenericSubscription>;
};
class GenericPublisher {
 public:
  using SharedPtr = std::shared_ptr<GenericPublisher>;
  std::string topic, type;
  QoS qos{1};
  size_t subscribers = 1;
  std::vector<std::vector<uint8_t>> published;
  size_t get_subscription_count() const { return subscribers; }
  const char* get_topic_name() const { return topic.c_str(); }
  void publish(const SerializedMessage& m) {
    const auto& r = m.get_rcl_serialized_message();
    published.emplace_back(r.buffer, r.buffer + r.buffer_length);
  }
};
struct Bus {  // what exists on the other side
  static Bus& get() { static Bus b; return b; }
  std::map<std::string, std::vector<TopicEndpointInfo>> offers;
  std::vector<std::weak_ptr<GenericSubscription>> subscriptions;
  std::vector<std::weak_ptr<GenericPublisher>> publishers;
};
class NodeOptions {
 public:
  NodeOptions& use_intra_process_comms(bool) { return *this; }
  NodeOptions& append_parameter_override(const std::string& n, ParameterValue v) { overrides[n] = std::move(v); return *this; }
  std::map<std::string, ParameterValue> overrides;
};
class Node {
 public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string& name, const NodeOptions& o = NodeOptions()) : name_(name), o_(o) {}
  virtual ~Node() = default;
  template <typename T> T declare_parameter(const std::string& n, const T& def) {
    auto it = o_.overrides.find(n);
    params_[n] = it == o_.overrides.end() ? ParameterValue(def) : it->second;
    return std::get<T>(params_[n]);
  }
  Parameter get_parameter(const std::string& n) const {
    auto it = params_.find(n);
    if (it == params_.end()) throw std::runtime_error("parameter not declared: " + n);
    return Parameter(n, it->second);
  }
  template <typename T> T declare_parameter(const std::string& n, const T& def, const rcl_interfaces::msg::ParameterDescriptor&) { return declare_parameter<T>(n, def); }
  bool has_parameter(const std::string& n) const { return params_.count(n) != 0; }
  template <typename T> bool get_parameter(const std::string& n, T& v) const {
    auto it = params_.find(n);
    if (it == params_.end()) return false;
    v = std::get<T>(it->second);
    return true;
  }
  const char* get_name() const { return name_.c_str(); }
  Clock::SharedPtr get_clock() const { return std::make_shared<Clock>(); }
  Time now() const { return {}; }
  Logger get_logger() const { return {}; }
  std::vector<TopicEndpointInfo> get_publishers_info_by_topic(const std::string& t) const {
    auto it = Bus::get().offers.find(t);
    return it == Bus::get().offers.end() ? std::vector<TopicEndpointInfo>() : it->second;
  }
  template <typename F> GenericSubscription::SharedPtr create_generic_subscription(const std::string& topic, const std::string& type, const QoS& q, F f) {
    auto s = std::make_shared<GenericSubscription>();
    s->topic = topic; s->type = type; s->qos = q; s->callback = f;
    Bus::get().subscriptions.push_back(s);
    return s;
  }
  GenericPublisher::SharedPtr create_generic_publisher(const std::string& topic, const std::string& type, const QoS& q) {
    auto p = std::make_shared<GenericPublisher>();
    p->topic = topic; p->type = type; p->qos = q;
    Bus::get().publishers.push_back(p);
    return p;
  }

 private:
  std::string name_;
  NodeOptions o_;
  std::map<std::string, ParameterValue> params_;
};
}  // namespace rclcpp
