#pragma once
#include <rclcpp/rclcpp.hpp>
#define RCLCPP_COMPONENTS_REGISTER_NODE(T) \
  std::shared_ptr<rclcpp::Node> vf_make_component(const rclcpp::NodeOptions& o) { return std::make_shared<T>(o); }
