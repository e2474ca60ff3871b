#pragma once
#include "class_loader.hpp"
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(cls, base) namespace { pluginlib_stub::Reg<cls, base> VP_CAT(vp_plugin_reg_, __LINE__)(#cls); }
