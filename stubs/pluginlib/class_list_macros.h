#pragma once
#include <pluginlib/class_loader.hpp>
#define STUB_PCAT2(a, b) a##b
#define STUB_PCAT(a, b) STUB_PCAT2(a, b)
#define STUB_PEXP(Derived, Base, ctr) \
  namespace { struct STUB_PCAT(StubPluginReg_, ctr) { STUB_PCAT(StubPluginReg_, ctr)() { \
    ::pluginlib::stub::Registry<Base>::get().declare(::pluginlib::stub::lookupFromClass(#Derived), []() -> Base* { return new Derived(); }); } } STUB_PCAT(stub_plugin_reg_, ctr); }
#define PLUGINLIB_EXPORT_CLASS(Derived, Base) STUB_PEXP(Derived, Base, __COUNTER__)
