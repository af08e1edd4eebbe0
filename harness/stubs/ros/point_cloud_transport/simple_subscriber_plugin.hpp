#pragma once
#include <point_cloud_transport/point_cloud_transport.hpp>
namespace point_cloud_transport {
template <class M> class SimpleSubscriberPlugin {
 public:
  using DecodeResult = vf::Expected<std::optional<std::shared_ptr<const sensor_msgs::msg::PointCloud2>>>;
  virtual ~SimpleSubscriberPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual void declareParameters() = 0;
  virtual std::string getDataType() const = 0;
  virtual DecodeResult decodeTyped(const M& compressed) const = 0;
};
}  // namespace point_cloud_transport
