// Stand-in for the yakushima index (implementation; compiled without instrumentation).
#include "yakushima/include/kvs.h"
#include "../../rt/rt.h"
#include <map>
#include <memory>
#include <set>
namespace yakushima {
node_version64_body node_version64::get_stable_version() {
    vt::point(this, false, 1);
    return b_;
}
namespace {
struct Leaf {
    std::string low;                    // covers [low, next.low)
    node_version64 nv;
    std::map<std::string, void*, std::less<>> ent;
    Leaf* next{nullptr};
    Leaf* prev{nullptr};
    bool dead{false};
};
struct Tree {
    Leaf* head{new Leaf{}};
    std::uint64_t uid{0};
};
std::size_t CAP = 15;
std::map<std::string, Tree*, std::less<>>* TREES = nullptr;
std::uint64_t UID = 0;
tree_instance ROOT;
int SESS[KVS_MAX_PARALLEL_THREADS * 2 + 64];
auto& trees() {
    if (!TREES) TREES = new std::map<std::string, Tree*, std::less<>>;
    return *TREES;
}
Tree* find(std::string_view st) {
    auto it = trees().find(st);
    return it == trees().end() ? nullptr : it->second;
}
Leaf* locate(Tree* t, std::string_view key) {
    Leaf* l = t->head;
    while (l->next && std::string_view(l->next->low) <= key) l = l->next;
    return l;
}
Leaf* last_leaf(Tree* t) {
    Leaf* l = t->head;
    while (l->next) l = l->next;
    return l;
}
bool ge(std::string_view k, std::string_view l, scan_endpoint le) {
    if (le == scan_endpoint::INF) return true;
    return le == scan_endpoint::INCLUSIVE ? k >= l : k > l;
}
bool leq(std::string_view k, std::string_view r, scan_endpoint re) {
    if (re == scan_endpoint::INF) return true;
    return re == scan_endpoint::INCLUSIVE ? k <= r : k < r;
}
void drop_tree(Tree* t) {
    // nodes stay allocated: the real index keeps them while any session could hold them
    (void) t;
}
} // namespace
namespace impl {
void set_capacity(std::size_t n) { CAP = n; }
status get(std::string_view st, std::string_view key, void*& out,
           std::pair<node_version64_body, node_version64*>* cv) {
    Tree* t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    vt::point(locate(t, key), false, 2);
    t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    Leaf* l = locate(t, key);
    if (cv) *cv = {l->nv.get_body(), &l->nv};
    auto it = l->ent.find(key);
    if (it == l->ent.end()) return status::WARN_NOT_EXIST;
    out = it->second;
    return status::OK;
}
status put(std::string_view st, std::string_view key, void* val, bool unique, inserted_node_info* ii) {
    Tree* t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    vt::point(locate(t, key), true, 3);
    t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    Leaf* l = locate(t, key);
    auto it = l->ent.find(key);
    if (it != l->ent.end()) {
        if (unique) return status::WARN_UNIQUE_RESTRICTION;
        it->second = val;
        return status::OK;
    }
    l->ent.emplace(std::string(key), val);
    l->nv.bump_insert_delete();
    if (ii) { ii->modified_nvp = &l->nv; ii->created_nvp = nullptr; }
    if (l->ent.size() > CAP) {
        Leaf* n = new Leaf{};
        std::size_t half = l->ent.size() / 2, i = 0;
        auto mid = l->ent.begin();
        for (; i < half; ++i) ++mid;
        n->low = mid->first;
        for (auto e = mid; e != l->ent.end(); ++e) n->ent.emplace(e->first, e->second);
        l->ent.erase(mid, l->ent.end());
        l->nv.bump_split();
        n->nv.copy_from(l->nv);
        n->next = l->next;
        n->prev = l;
        if (n->next) n->next->prev = n;
        l->next = n;
        if (ii) ii->created_nvp = &n->nv;
    }
    return status::OK;
}
status scan(std::string_view st, std::string_view lk, scan_endpoint le, std::string_view rk,
            scan_endpoint re, std::vector<std::tuple<std::string, void*, std::size_t>>& res,
            std::vector<std::pair<node_version64_body, node_version64*>>* nvec,
            std::size_t max_size, bool rtl) {
    res.clear();
    if (nvec) nvec->clear();
    Tree* t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    std::vector<std::pair<node_version64_body, node_version64*>> extra, main;
    vt::point(t, false, 4);
    t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    Leaf* l = nullptr;
    if (!rtl) l = le == scan_endpoint::INF ? t->head : locate(t, lk);
    else l = re == scan_endpoint::INF ? last_leaf(t) : locate(t, rk);
    std::string pos;            // continue strictly after / before this key
    bool have_pos = false;
    while (l) {
        vt::point(l, false, 5);
        if (find(st) != t) break;       // storage dropped meanwhile
        if (l->dead) l = locate(t, l->low);
        bool hit = false, full = false;
        auto one = [&](const std::string& k, void* v) {
            res.emplace_back(k, v, sizeof(void*));
            main.emplace_back(l->nv.get_body(), &l->nv);
            pos = k;
            have_pos = true;
            hit = true;
            if (max_size != 0 && res.size() >= max_size) full = true;
        };
        if (!rtl) {
            for (auto& e : l->ent) {
                if (!ge(e.first, lk, le) || (have_pos && e.first <= pos)) continue;
                if (!leq(e.first, rk, re)) break;
                one(e.first, e.second);
                if (full) break;
            }
        } else {
            for (auto e = l->ent.rbegin(); e != l->ent.rend(); ++e) {
                if (!leq(e->first, rk, re) || (have_pos && e->first >= pos)) continue;
                if (!ge(e->first, lk, le)) break;
                one(e->first, e->second);
                if (full) break;
            }
        }
        if (!hit) extra.emplace_back(l->nv.get_body(), &l->nv);
        if (full) break;
        if (!rtl) {
            l = l->next;
            if (l && !leq(l->low, rk, re)) break;
        } else {
            // the previous leaf covers keys below l->low
            if (!l->prev) break;
            if (le != scan_endpoint::INF && std::string_view(l->low) <= lk) break;
            l = l->prev;
        }
    }
    if (nvec) {
        *nvec = extra;
        nvec->insert(nvec->end(), main.begin(), main.end());
    }
    return status::OK;
}
} // namespace impl

status create_storage(std::string_view name) {
    vt::point(&TREES, true, 6);
    if (find(name)) return status::WARN_UNIQUE_RESTRICTION;
    auto* t = new Tree{};
    t->uid = ++UID;
    trees().emplace(std::string(name), t);
    return status::OK;
}
status delete_storage(std::string_view name) {
    vt::point(&TREES, true, 7);
    auto it = trees().find(name);
    if (it == trees().end()) return status::WARN_STORAGE_NOT_EXIST;
    drop_tree(it->second);
    trees().erase(it);
    return status::OK;
}
status find_storage(std::string_view name) {
    vt::point(&TREES, false, 8);
    return find(name) ? status::OK : status::WARN_STORAGE_NOT_EXIST;
}
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out) {
    vt::point(&TREES, false, 9);
    out.clear();
    for (auto& e : trees()) out.emplace_back(e.first, reinterpret_cast<tree_instance*>(e.second));
    return out.empty() ? status::WARN_NOT_EXIST : status::OK;
}
status enter(Token& tk) {
    vt::point(SESS, true, 10);
    for (auto& s : SESS)
        if (!s) {
            s = 1;
            tk = &s;
            return status::OK;
        }
    return status::WARN_MAX_SESSIONS;
}
status leave(Token tk) {
    vt::point(SESS, true, 11);
    int* s = static_cast<int*>(tk);
    if (s < SESS || s >= SESS + sizeof(SESS) / sizeof(*SESS) || !*s) return status::WARN_INVALID_TOKEN;
    *s = 0;
    return status::OK;
}
void init() {
    trees().clear();
    for (auto& s : SESS) s = 0;
}
void fin() {
    trees().clear();
    for (auto& s : SESS) s = 0;
}
status remove(Token, std::string_view st, std::string_view key) {
    Tree* t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    vt::point(locate(t, key), true, 12);
    t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    Leaf* l = locate(t, key);
    auto it = l->ent.find(key);
    if (it == l->ent.end()) return status::WARN_NOT_EXIST;
    l->ent.erase(it);
    l->nv.bump_insert_delete();
    // An emptied node other than the first is unlinked; its left neighbour takes over the key range.
    if (l->ent.empty() && l->prev) {
        l->dead = true;
        l->prev->next = l->next;
        if (l->next) l->next->prev = l->prev;
    }
    return status::OK;
}
struct iscan_context {
    std::string st, l, r, pos;
    scan_endpoint le, re;
    bool rtl, have_pos, early, done;
    Leaf* leaf;
    node_version64_body seen;
    std::uint64_t uid;
};
static status advance(iscan_context* c, void*& value, const scan_cb& cb, bool first) {
    Tree* t = find(c->st);
    if (!t) return status::OK_SCAN_END;
    vt::point(c->leaf ? static_cast<void*>(c->leaf) : static_cast<void*>(t), false, 13);
    t = find(c->st);
    if (!t || (t->uid != c->uid)) return status::OK_SCAN_END;
    if (c->done) return status::OK_SCAN_END;
    if (first) {
        if (!c->rtl) c->leaf = c->le == scan_endpoint::INF ? t->head : locate(t, c->l);
        else c->leaf = c->re == scan_endpoint::INF ? last_leaf(t) : locate(t, c->r);
    }
    bool entering = first;
    if (!first && !(c->leaf->nv.get_body() == c->seen)) {
        if (c->early) return status::WARN_CONCURRENT_OPERATIONS;
        if (c->have_pos) {
            Leaf* cur = locate(t, c->pos);
            c->leaf = cur;
        }
        entering = true;
    }
    for (;;) {
        Leaf* l = c->leaf;
        if (entering) {
            vt::point(l, false, 14);
            if (find(c->st) != t) { c->done = true; return status::OK_SCAN_END; }
            if (l->dead) { l = c->leaf = locate(t, l->low); }
            c->seen = l->nv.get_body();
            if (cb && cb(&l->nv, c->seen)) return status::WARN_ABORTED_BY_USER;
            // the callback may have been a scheduling point: re-read the node as of now
            if (l->dead || !(l->nv.get_body() == c->seen)) continue;
        }
        if (!c->rtl) {
            for (auto& e : l->ent) {
                if (!ge(e.first, c->l, c->le) || (c->have_pos && e.first <= c->pos)) continue;
                if (!leq(e.first, c->r, c->re)) { c->done = true; return status::OK_SCAN_END; }
                c->pos = e.first;
                c->have_pos = true;
                value = e.second;
                return status::OK;
            }
            if (!l->next || !leq(l->next->low, c->r, c->re)) { c->done = true; return status::OK_SCAN_END; }
            c->leaf = l->next;
        } else {
            for (auto e = l->ent.rbegin(); e != l->ent.rend(); ++e) {
                if (!leq(e->first, c->r, c->re) || (c->have_pos && e->first >= c->pos)) continue;
                if (!ge(e->first, c->l, c->le)) { c->done = true; return status::OK_SCAN_END; }
                c->pos = e->first;
                c->have_pos = true;
                value = e->second;
                return status::OK;
            }
            if (!l->prev || (c->le != scan_endpoint::INF && std::string_view(l->low) <= c->l)) {
                c->done = true;
                return status::OK_SCAN_END;
            }
            c->leaf = l->prev;
        }
        entering = true;
    }
}
status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
                  scan_endpoint re, bool rtl, bool early, iscan_context*& ctx, void*& value,
                  const scan_cb& cb) {
    Tree* t = find(st);
    if (!t) return status::WARN_STORAGE_NOT_EXIST;
    ctx = new iscan_context{std::string(st), std::string(l), std::string(r), "", le, re,
                            rtl, false, early, false, nullptr, {}, t->uid};
    return advance(ctx, value, cb, true);
}
status iscan_next(iscan_context* ctx, void*& value, const scan_cb& cb) {
    return advance(ctx, value, cb, false);
}
status iscan_close(iscan_context*& ctx) {
    delete ctx;
    ctx = nullptr;
    return status::OK;
}
void tree_instance::store_root_ptr(void*) { trees().clear(); }
tree_instance* storage::get_storages() { return &ROOT; }
} // namespace yakushima
