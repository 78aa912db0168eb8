#pragma once
#include <ros/common.h>
#include <ros/console.h>
#include <ros/node_handle.h>
#include <ros/time.h>
namespace ros { struct AsyncSpinner { explicit AsyncSpinner(int) {} void start() {} void stop() {} }; }
