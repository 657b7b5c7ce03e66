// Stand-in for the yakushima index: version words of border nodes.
#pragma once
#include <cstdint>
namespace yakushima {
class node_version64_body {
public:
    node_version64_body() = default;
    node_version64_body(std::uint64_t vid, std::uint64_t vs) : vid_(vid), vs_(vs) {}
    std::uint64_t get_vinsert_delete() const { return vid_; }
    std::uint64_t get_vsplit() const { return vs_; }
    void set_vinsert_delete(std::uint64_t v) { vid_ = v; }
    void set_vsplit(std::uint64_t v) { vs_ = v; }
    bool get_deleted() const { return false; }
    bool operator==(const node_version64_body& o) const { return vid_ == o.vid_ && vs_ == o.vs_; }
    bool operator!=(const node_version64_body& o) const { return !(*this == o); }

private:
    std::uint64_t vid_{0};
    std::uint64_t vs_{0};
};
class node_version64 {
public:
    node_version64_body get_stable_version();
    node_version64_body get_body() { return b_; }
    void bump_insert_delete() { b_.set_vinsert_delete(b_.get_vinsert_delete() + 1); }
    void bump_split() { b_.set_vsplit(b_.get_vsplit() + 1); }
    void copy_from(const node_version64& o) { b_ = o.b_; }

private:
    node_version64_body b_{};
};
} // namespace yakushima
