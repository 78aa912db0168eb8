#pragma once
#include <stdexcept>
#include <string>
namespace pluginlib {
class PluginlibException : public std::runtime_error { public: explicit PluginlibException(const std::string e) : std::runtime_error(e) {} };
class LibraryLoadException : public PluginlibException { public: explicit LibraryLoadException(const std::string e) : PluginlibException(e) {} };
class ClassLoaderException : public PluginlibException { public: explicit ClassLoaderException(const std::string e) : PluginlibException(e) {} };
class LibraryUnloadException : public PluginlibException { public: explicit LibraryUnloadException(const std::string e) : PluginlibException(e) {} };
class CreateClassException : public PluginlibException { public: explicit CreateClassException(const std::string e) : PluginlibException(e) {} };
class InvalidXMLException : public PluginlibException { public: explicit InvalidXMLException(const std::string e) : PluginlibException(e) {} };
}
