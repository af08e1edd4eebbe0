#pragma once
#include <point_cloud_transport/point_cloud_transport.hpp>
