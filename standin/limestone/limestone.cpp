// Stand-in for the limestone log store (implementation; compiled without instrumentation).
#include "limestone/api/limestone_standin.h"
#include "../../rt/rt.h"
#include <cstring>
#include <map>
namespace limestone::api {
namespace {
datastore* CUR = nullptr;
medium INITIAL;
std::function<void(const char*)> HOOK;
std::function<void(const medium&)> CLOSED;
std::function<void(const medium::entry&)> ENTRY;
} // namespace

std::string medium::serialize() const {
    std::string o;
    auto u = [&](std::uint64_t v) { o.append(reinterpret_cast<const char*>(&v), 8); };
    auto s = [&](const std::string& v) { u(v.size()); o += v; };
    u(durable); u(informed); u(log.size());
    for (auto& e : log) {
        u(e.session_epoch); u(e.k); u(e.st); s(e.key); s(e.val); u(e.wv.get_major()); u(e.wv.get_minor()); u(e.channel);
    }
    return o;
}
medium medium::parse(std::string_view b) {
    medium m;
    std::size_t i = 0;
    auto u = [&]() { std::uint64_t v; memcpy(&v, b.data() + i, 8); i += 8; return v; };
    auto s = [&]() { auto n = u(); std::string r(b.substr(i, n)); i += n; return r; };
    m.durable = u(); m.informed = u();
    auto n = u();
    for (std::uint64_t k = 0; k < n; ++k) {
        entry e{};
        e.session_epoch = u(); e.k = static_cast<kind>(u()); e.st = u(); e.key = s(); e.val = s();
        auto ma = u(); auto mi = u();
        e.wv = write_version_type(static_cast<epoch_t>(ma), mi);
        e.channel = static_cast<std::uint32_t>(u());
        m.log.push_back(std::move(e));
    }
    return m;
}
void medium::crash() {
    std::vector<entry> keep;
    for (auto& e : log)
        if (e.session_epoch <= durable) keep.push_back(std::move(e));
    log = std::move(keep);
}
std::vector<cursor::rec> medium::contents() const {
    struct best { write_version_type wv; bool del; std::string val; bool set{false}; };
    std::map<std::pair<storage_id_type, std::string>, best> m;
    std::map<storage_id_type, write_version_type> removed;
    for (auto& e : log) {
        if (e.k == PUT || e.k == DEL) {
            auto& x = m[{e.st, e.key}];
            if (x.set && e.wv < x.wv) continue;
            x = best{e.wv, e.k == DEL, e.val, true};
        } else if (e.k == REM_ST) {
            auto it = removed.find(e.st);
            if (it == removed.end() || it->second < e.wv) removed[e.st] = e.wv;
        }
    }
    std::vector<cursor::rec> r;
    for (auto& [k, v] : m) {
        if (v.del) continue;
        auto it = removed.find(k.first);
        if (it != removed.end() && v.wv < it->second) continue;
        r.push_back({k.first, k.second, v.val});
    }
    return r;
}
std::vector<std::unique_ptr<cursor>> snapshot::get_partitioned_cursors(std::size_t n) const {
    std::vector<std::unique_ptr<cursor>> out;
    if (n == 0) n = 1;
    std::vector<std::vector<cursor::rec>> parts(n);
    for (std::size_t i = 0; i < r_.size(); ++i) parts[i % n].push_back(r_[i]);
    for (auto& p : parts) out.push_back(std::make_unique<cursor>(std::move(p)));
    return out;
}
datastore::datastore() { CUR = this; m_ = INITIAL; }
datastore::datastore(const configuration&) : datastore() {}
datastore::~datastore() { if (CUR == this) CUR = nullptr; }
medium* datastore::current() { return CUR ? &CUR->m_ : nullptr; }
void datastore::set_initial(medium m) { INITIAL = std::move(m); }
void datastore::set_event_hook(std::function<void(const char*)> h) { HOOK = std::move(h); }
void datastore::set_entry_hook(std::function<void(const medium::entry&)> h) { ENTRY = std::move(h); }
void datastore::set_closed_hook(std::function<void(const medium&)> h) { CLOSED = std::move(h); }
void datastore::event(const char* what) { if (HOOK) { vt::no_preempt np; HOOK(what); } }
void datastore::recover() { m_.crash(); boot_last_ = m_.durable; }
void datastore::ready() { m_.crash(); boot_last_ = m_.durable; }
std::unique_ptr<snapshot> datastore::get_snapshot() const { return std::make_unique<snapshot>(m_.contents()); }
log_channel& datastore::create_channel() {
    ch_.push_back(std::make_unique<log_channel>(this, ch_.size()));
    return *ch_.back();
}
epoch_id_type datastore::last_epoch() const { return boot_last_; }
void datastore::switch_epoch(epoch_id_type e) {
    vt::note_epoch_fiber();
    vt::point(this, true, 30);
    switched_ = e;
    event("switch_epoch");
    update();
}
void datastore::update() {
    if (switched_ == 0) return;
    std::uint64_t upper = switched_ - 1;
    std::uint64_t maxfin = 0;
    for (auto& c : ch_) {
        if (c->working_ != UINT64_MAX && c->working_ - 1 < upper) upper = c->working_ - 1;
        if (c->finished_ > maxfin) maxfin = c->finished_;
    }
    std::uint64_t rec = upper < maxfin ? upper : maxfin;
    if (rec > m_.durable) { m_.durable = rec; event("durable"); }
    if (upper > m_.informed) {
        m_.informed = upper;
        if (cb_) cb_(upper);
        event("informed");
    }
}
std::future<void> datastore::shutdown() {
    if (CLOSED) CLOSED(m_);
    std::promise<void> p;
    p.set_value();
    return p.get_future();
}
void log_channel::begin_session() {
    vt::point(ds_, true, 31);
    working_ = ds_->switched_;
    ds_->event("begin_session");
}
void log_channel::end_session() {
    vt::point(ds_, true, 32);
    finished_ = working_;
    working_ = UINT64_MAX;
    ds_->event("end_session");
    ds_->update();
}
void log_channel::add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv) {
    add_entry(st, key, val, wv, {});
}
void log_channel::add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv,
                            const std::vector<blob_id_type>& lobs) {
    ds_->m_.log.push_back({working_, medium::PUT, st, std::string(key), std::string(val), wv, static_cast<std::uint32_t>(id_), lobs});
    if (ENTRY) ENTRY(ds_->m_.log.back());
    ds_->event("add_entry");
}
void log_channel::remove_entry(storage_id_type st, std::string_view key, write_version_type wv) {
    ds_->m_.log.push_back({working_, medium::DEL, st, std::string(key), "", wv, static_cast<std::uint32_t>(id_)});
    ds_->event("remove_entry");
}
void log_channel::add_storage(storage_id_type st, write_version_type wv) {
    ds_->m_.log.push_back({working_, medium::ADD_ST, st, "", "", wv, static_cast<std::uint32_t>(id_)});
    ds_->event("add_storage");
}
void log_channel::remove_storage(storage_id_type st, write_version_type wv) {
    ds_->m_.log.push_back({working_, medium::REM_ST, st, "", "", wv, static_cast<std::uint32_t>(id_)});
    ds_->event("remove_storage");
}
} // namespace limestone::api
