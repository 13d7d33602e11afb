#pragma once
#include <cstddef>
#include <cstdint>
#include <set>
namespace tsr {
void start(); void stop(); size_t takeFresh(bool promote); std::set<uintptr_t> const& racy(); uint64_t accesses();
}
