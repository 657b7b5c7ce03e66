// Stand-in for the yakushima index: scheme.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include "version.h"
namespace yakushima {
using Token = void*;
using value_align_type = std::align_val_t;
enum class scan_endpoint : char { EXCLUSIVE, INCLUSIVE, INF };
enum class status : std::int32_t {
    WARN_ABORTED_BY_USER = -100,
    WARN_CONCURRENT_OPERATIONS,
    WARN_EXIST,
    WARN_INVALID_TOKEN,
    WARN_MAX_SESSIONS,
    WARN_NOT_EXIST,
    WARN_STORAGE_NOT_EXIST,
    WARN_UNIQUE_RESTRICTION,
    OK = 0,
    OK_DESTROY_ALL,
    OK_ROOT_IS_NULL,
    OK_SCAN_CONTINUE,
    OK_SCAN_END,
    ERR_BAD_USAGE,
    ERR_FATAL,
};
inline std::ostream& operator<<(std::ostream& o, status s) { return o << static_cast<int>(s); }
struct inserted_node_info {
    node_version64* modified_nvp{nullptr};
    node_version64* created_nvp{nullptr};
};
} // namespace yakushima
