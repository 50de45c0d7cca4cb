#pragma once
#include <pluginlib/class_loader.hpp>
#define PLUGINLIB_SHIM_CAT_(a, b) a##b
#define PLUGINLIB_SHIM_CAT(a, b) PLUGINLIB_SHIM_CAT_(a, b)
#define PLUGINLIB_EXPORT_CLASS(Derived, Base) namespace { ::pluginlib::shim::Exporter<Derived, Base> PLUGINLIB_SHIM_CAT(pluginlib_shim_exp_, __COUNTER__)(#Derived, #Base); }
#define PLUGINLIB_DECLARE_CLASS(pkg, name, Derived, Base) PLUGINLIB_EXPORT_CLASS(Derived, Base)
