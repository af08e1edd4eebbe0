#pragma once
#include <point_cloud_transport/point_cloud_transport.hpp>
namespace point_cloud_transport {
template <class M> class SimplePublisherPlugin {
 public:
  using TypedEncodeResult = vf::Expected<std::optional<M>>;
  using Callback = std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter>&)>;
  virtual ~SimplePublisherPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual void declareParameters(const std::string& base_topic) = 0;
  virtual std::string getDataType() const = 0;
  virtual TypedEncodeResult encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const = 0;
  // of the harness: values given at start, and changes while running
  std::map<std::string, rclcpp::ParameterValue> overrides;
  rcl_interfaces::msg::SetParametersResult change(const std::vector<rclcpp::Parameter>& p) { return callback_(p); }

 protected:
  template <typename T> bool declareParam(const std::string& n, const T& def, const rcl_interfaces::msg::ParameterDescriptor& = {}) {
    auto it = overrides.find(n);
    params_[n] = it == overrides.end() ? rclcpp::ParameterValue(def) : it->second;
    return true;
  }
  template <typename T> bool getParam(const std::string& n, T& v) const {
    auto it = params_.find(n);
    if (it == params_.end()) return false;
    v = std::get<T>(it->second);
    return true;
  }
  void setParamCallback(Callback c) { callback_ = std::move(c); }

 private:
  std::map<std::string, rclcpp::ParameterValue> params_;
  Callback callback_;
};
}  // namespace point_cloud_transport
