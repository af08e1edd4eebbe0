// Stand-in for the base classes of the transport plugins.
#pragma once
#include <optional>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
namespace vf {
template <typename T> class Expected {  // value, or a text telling what failed
 public:
  Expected(T v) : v_(std::move(v)), ok_(true) {}
  template <typename U, typename = std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, Expected>>>
  Expected(U&& u) : v_(std::forward<U>(u)), ok_(true) {}
  static Expected unexpected(std::string e) { Expected x{T{}}; x.ok_ = false; x.e_ = std::move(e); return x; }
  explicit operator bool() const { return ok_; }
  bool has_value() const { return ok_; }
  const T& value() const { return v_; }
  const T& operator*() const { return v_; }
  const T* operator->() const { return &v_; }
  const std::string& error() const { return e_; }

 private:
  T v_;
  std::string e_;
  bool ok_;
};
}  // namespace vf
