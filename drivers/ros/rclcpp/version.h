#pragma once
#include <ros/msgs.hpp>
