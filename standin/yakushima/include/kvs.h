// Stand-in for the yakushima index. An ordered map per storage, kept in border nodes of small
// capacity with insert/delete and split versions; each operation on one node is one atomic step.
#pragma once
#include "scheme.h"
namespace yakushima {
class tree_instance;
struct iscan_context;
using scan_cb = std::function<bool(node_version64*, node_version64_body)>;

namespace impl {
status get(std::string_view st, std::string_view key, void*& out,
           std::pair<node_version64_body, node_version64*>* cv);
status put(std::string_view st, std::string_view key, void* val, bool unique,
           inserted_node_info* ii);
status scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
            scan_endpoint re, std::vector<std::tuple<std::string, void*, std::size_t>>& res,
            std::vector<std::pair<node_version64_body, node_version64*>>* nvec,
            std::size_t max_size, bool right_to_left);
void set_capacity(std::size_t n);
} // namespace impl

status create_storage(std::string_view name);
status delete_storage(std::string_view name);
status find_storage(std::string_view name);
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out);
status enter(Token& tk);
status leave(Token tk);
void init();
void fin();
status remove(Token tk, std::string_view st, std::string_view key);

template<class T>
status get(std::string_view st, std::string_view key, std::pair<T*, std::size_t>& out,
           std::pair<node_version64_body, node_version64*>* cv = nullptr) {
    void* v{};
    auto rc = impl::get(st, key, v, cv);
    if (rc == status::OK) {
        out.first = reinterpret_cast<T*>(v);
        out.second = sizeof(T);
    }
    return rc;
}
template<class T>
status put(Token, std::string_view st, std::string_view key, T* value, std::size_t = sizeof(T),
           T** = nullptr, value_align_type = static_cast<value_align_type>(alignof(T)),
           bool unique = true, inserted_node_info* ii = nullptr) {
    return impl::put(st, key, reinterpret_cast<void*>(*value), unique, ii);
}
template<class T>
status scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
            scan_endpoint re, std::vector<std::tuple<std::string, T*, std::size_t>>& res,
            std::vector<std::pair<node_version64_body, node_version64*>>* nvec = nullptr,
            std::size_t max_size = 0, bool right_to_left = false) {
    std::vector<std::tuple<std::string, void*, std::size_t>> tmp;
    auto rc = impl::scan(st, l, le, r, re, tmp, nvec, max_size, right_to_left);
    res.clear();
    for (auto& e : tmp)
        res.emplace_back(std::get<0>(e), reinterpret_cast<T*>(std::get<1>(e)), std::get<2>(e));
    return rc;
}
status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
                  scan_endpoint re, bool right_to_left, bool early_abort, iscan_context*& ctx,
                  void*& value, const scan_cb& cb = nullptr);
status iscan_next(iscan_context* ctx, void*& value, const scan_cb& cb = nullptr);
status iscan_close(iscan_context*& ctx);

class tree_instance {
public:
    void store_root_ptr(void* p);
};
class storage {
public:
    static tree_instance* get_storages();
};
} // namespace yakushima
