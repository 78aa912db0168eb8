#pragma once
#include <stdexcept>
#include <string>
namespace ros {
struct Exception : std::runtime_error { explicit Exception(const std::string& w) : std::runtime_error(w) {} };
struct InvalidNameException : Exception { explicit InvalidNameException(const std::string& w) : Exception(w) {} };
struct InvalidNodeNameException : Exception { InvalidNodeNameException(const std::string& n, const std::string& r) : Exception(n + r) {} };
struct InvalidParameterException : Exception { explicit InvalidParameterException(const std::string& w) : Exception(w) {} };
}
