#include "h.h"

#include <algorithm>
#include <cstring>
#include <set>
#include <sstream>

#include <glog/logging.h>

namespace h {
using namespace shirakami;

void quiet_logging() {
    FLAGS_minloglevel = 3;
    FLAGS_stderrthreshold = 3;
    for (int i = 0; i < 4; ++i) google::SetLogDestination(i, "");
}

std::string value_of(int tx, int op) { return "t" + std::to_string(tx) + "." + std::to_string(op); }

static bool LOBS = false;
static std::set<std::string> LOB_VALUES, LOB_LOGGED;
static std::string LOB_BAD;
static std::uint64_t LOB_ENTRIES = 0;
std::vector<std::uint64_t> lobs_of(const std::string& val) {
    std::uint64_t n = val.size(), x = 1469598103934665603ULL;
    for (unsigned char c : val) { n += c; x = (x ^ c) * 1099511628211ULL; }
    std::vector<std::uint64_t> r;
    static constexpr std::uint64_t count[] = {0, 1, 3, 40};
    for (std::uint64_t i = 0; i < count[n % 4]; ++i) r.push_back((x >> 8U) * 64 + 40 - i);
    return r;
}
void lobs_on() {
    LOBS = true;
    limestone::api::datastore::set_entry_hook([](const limestone::api::medium::entry& x) {
        bool ours = LOB_VALUES.count(x.val) != 0;
        std::vector<std::uint64_t> want;
        if (ours) { ++LOB_ENTRIES; LOB_LOGGED.insert(x.val); want = lobs_of(x.val); }
        if (x.lobs == want || !LOB_BAD.empty()) return;
        LOB_BAD = "key " + x.key + " was logged with value " + x.val.substr(0, 40) + " and large objects";
        for (auto l : x.lobs) LOB_BAD += " " + std::to_string(l);
        LOB_BAD += ", given with that value:";
        for (auto l : want) LOB_BAD += " " + std::to_string(l);
    });
}
bool lobs_good(const Tables& fin, std::string* why, std::uint64_t* entries) {
    for (int i = 0; i < 3; ++i) { vt::tick_epoch(); vt::tick_bg(); }
    if (LOB_BAD.empty())
        for (auto& t : fin) for (auto& kv : t)
            if (LOB_VALUES.count(kv.second) && !LOB_LOGGED.count(kv.second)) LOB_BAD = "committed value " + kv.second.substr(0, 40) + " of key " + kv.first + " was not handed to the log with its large objects";
    *entries = LOB_ENTRIES;
    *why = LOB_BAD;
    LOB_ENTRIES = 0;
    LOB_BAD.clear();
    LOB_LOGGED.clear();
    return why->empty();
}

Op parse_op(std::string w, int tx, int idx) {
    Op o;
    o.text = w;
    if (w[0] == '&') { o.glue = true; w = w.substr(1); }
    o.k = w[0];
    std::size_t i = 1;
    if (i < w.size() && w[i] >= 'A' && w[i] <= 'Z') { o.st = w[i] - 'A'; ++i; }
    if (o.k == 's' || o.k == 'o') {
        if (i < w.size() && (w[i] == '[' || w[i] == '(')) {
            bool inc = w[i] == '[';
            auto c = w.find(',', i);
            auto e = w.find_first_of(")]", c);
            o.key = w.substr(i + 1, c - i - 1);
            o.rkey = w.substr(c + 1, e - c - 1);
            o.le = o.key.empty() ? scan_endpoint::INF : inc ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE;
            o.re = o.rkey.empty() ? scan_endpoint::INF : w[e] == ']' ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE;
            i = e + 1;
        }
        if (i < w.size() && w[i] == '<') { o.rev = true; ++i; }
        if (i < w.size() && w[i] == '*') { o.max = std::stoul(w.substr(i + 1)); }
    } else {
        o.key = w.substr(i);
        o.val = value_of(tx, idx);
    }
    return o;
}

Prog parse(const std::string& s) {
    Prog p;
    p.text = s;
    auto cut = s.find("||");
    p.nst = 1;
    auto touch = [&](int st) { p.nst = std::max(p.nst, st + 1); };
    std::vector<std::pair<int, std::string>> ini;
    if (cut != std::string::npos) {
        std::istringstream is(s.substr(0, cut));
        std::string w;
        while (is >> w) {
            bool t = w[0] == '~';
            if (t) w = w.substr(1);
            touch(w[0] - 'A');
            if (t) p.tomb.emplace_back(w[0] - 'A', w.substr(1));
            else ini.emplace_back(w[0] - 'A', w.substr(1));
        }
    }
    std::string body = cut == std::string::npos ? s : s.substr(cut + 2);
    std::size_t pos = 0;
    while (pos <= body.size()) {
        auto bar = body.find('|', pos);
        if (bar == std::string::npos) bar = body.size();
        std::istringstream is(body.substr(pos, bar - pos));
        std::string w;
        TxP t;
        bool head = true;
        while (is >> w) {
            if (head) {
                if (w[0] == '!') { t.whole = true; w = w.substr(1); }
                t.type = w[0];
                char sec = 0;
                for (std::size_t i = 1; i < w.size(); ++i) {
                    if (w[i] == ':' || w[i] == '+' || w[i] == '-') { sec = w[i]; continue; }
                    int st = w[i] - 'A';
                    touch(st);
                    if (sec == ':') t.wp.push_back(st);
                    if (sec == '+') t.ra_pos.push_back(st);
                    if (sec == '-') t.ra_neg.push_back(st);
                }
                head = false;
                continue;
            }
            if (w == "x") { t.user_abort = true; continue; }
            Op o = parse_op(w, static_cast<int>(p.txs.size()), static_cast<int>(t.ops.size()));
            if (o.k == 'n')
                for (std::size_t i = t.ops.size(); i-- > 0;)
                    if (t.ops[i].k == 'o') {
                        o = t.ops[i];
                        o.k = 'n';
                        o.text = w;
                        o.glue = w[0] == '&';
                        break;
                    }
            touch(o.st);
            t.ops.push_back(o);
        }
        if (!head) p.txs.push_back(std::move(t));
        pos = bar + 1;
    }
    p.init.resize(static_cast<std::size_t>(p.nst));
    p.loose_limit = !p.tomb.empty();
    for (auto& t : p.txs)
        for (auto& o : t.ops) p.loose_limit |= o.k == 'd' || o.k == 'i' || o.k == 'p';
    p.keys.resize(static_cast<std::size_t>(p.nst));
    for (auto& [st, k] : ini) p.init[static_cast<std::size_t>(st)][k] = "init." + k;
    for (auto& [st, k] : ini) p.keys[static_cast<std::size_t>(st)].insert(k);
    for (auto& [st, k] : p.tomb) p.keys[static_cast<std::size_t>(st)].insert(k);
    for (auto& t : p.txs)
        for (auto& o : t.ops)
            if (o.k != 's' && o.k != 'o' && o.k != 'n' && o.k != 'c') p.keys[static_cast<std::size_t>(o.st)].insert(o.key);
    return p;
}

bool is_err(Status s) { return s >= Status::ERR_CC; }
bool no_observation(Status s) {
    switch (s) {
        case Status::WARN_CONCURRENT_INSERT:
        case Status::WARN_CONCURRENT_UPDATE:
        case Status::WARN_CONFLICT_ON_WRITE_PRESERVE:
        case Status::WARN_PREMATURE:
        case Status::WARN_WRITE_WITHOUT_WP:
        case Status::WARN_ILLEGAL_OPERATION:
        case Status::WARN_MAX_OPEN_SCAN:
            return true;
        default:
            return is_err(s);
    }
}

// ---- model ---------------------------------------------------------------------
bool in_range(const Op& o, const std::string& k) {
    if (o.le == scan_endpoint::INCLUSIVE && k < o.key) return false;
    if (o.le == scan_endpoint::EXCLUSIVE && k <= o.key) return false;
    if (o.re == scan_endpoint::INCLUSIVE && k > o.rkey) return false;
    if (o.re == scan_endpoint::EXCLUSIVE && k >= o.rkey) return false;
    return true;
}

bool TxView::step(const Op& o, const OpRes& r, bool loose_limit, std::string* why) {
    auto no = [&](const Op& o, const OpRes& r, const std::string& exp) {
        if (why) {
            std::ostringstream os;
            os << o.text << " answered " << r.st;
            for (auto& x : r.rows) os << " " << x.first << "=" << x.second;
            os << ", serial execution gives " << exp;
            *why = os.str();
        }
        return false;
    };
    if (!r.ran || no_observation(r.st) || o.k == 'w' || o.k == 'H') return true;
    auto& t = this->t[static_cast<std::size_t>(o.st)];
    auto it = t.find(o.key);
    bool ex = it != t.end();
    auto ok = std::make_pair(o.st, o.key);
    auto oit = own.find(ok);
    char ow = oit == own.end() ? 0 : oit->second;
    switch (o.k) {
        case 'g':
            if (ex) {
                if (r.st != Status::OK || r.rows.size() != 1 || r.rows[0].second != it->second) return no(o, r, "OK " + it->second);
            } else if (r.st != Status::WARN_NOT_FOUND) return no(o, r, "NOT_FOUND");
            break;
        case 'e':
            if ((r.st == Status::OK) != ex || (r.st != Status::OK && r.st != Status::WARN_NOT_FOUND)) return no(o, r, ex ? "OK" : "NOT_FOUND");
            break;
        case 'i':
            if (ex) {
                if (r.st != Status::WARN_ALREADY_EXISTS) return no(o, r, "ALREADY_EXISTS");
            } else {
                if (r.st != Status::OK) return no(o, r, "OK");
                t[o.key] = o.val;
                own[ok] = ow == 'd' ? 'u' : 'i';
            }
            break;
        case 'u':
            if (!ex) {
                if (r.st != Status::WARN_NOT_FOUND) return no(o, r, "NOT_FOUND");
            } else {
                if (r.st != Status::OK) return no(o, r, "OK");
                it->second = o.val;
                if (!ow) own[ok] = 'u';
            }
            break;
        case 'p':
            if (r.st != Status::OK) return no(o, r, "OK");
            t[o.key] = o.val;
            if (!ow) { own[ok] = 'p'; if (!ex) blind.insert(ok); else blind.erase(ok); }
            else if (ow == 'd') own[ok] = 'u';
            break;
        case 'd':
            if (!ex) {
                if (r.st != Status::WARN_NOT_FOUND) return no(o, r, "NOT_FOUND");
            } else {
                Status e = ow == 'i' ? Status::WARN_CANCEL_PREVIOUS_INSERT
                         : ow == 'p' ? Status::WARN_CANCEL_PREVIOUS_UPSERT : Status::OK;
                if (r.st != e) return no(o, r, "OK or cancel");
                t.erase(it);
                // cancelling an upsert of an absent key leaves nothing
                own[ok] = (ow == 'i' || (ow == 'p' && blind.count(ok))) ? 0 : 'd';
            }
            break;
        case 'o':
            // nothing there is answered at once
            if (r.st == Status::WARN_NOT_FOUND)
                for (auto& kv : t) if (in_range(o, kv.first) && !(o.max && loose_limit)) return no(o, r, "rows");
            break;
        case 'n': case 's': {
            std::vector<std::pair<std::string, std::string>> want;
            for (auto& kv : t) if (in_range(o, kv.first)) want.push_back(kv);
            if (o.rev) std::reverse(want.begin(), want.end());
            if (o.max && want.size() > o.max) want.resize(o.max);
            // documented: deleted and unfinished entries count for the limit
            if (o.max && loose_limit && r.rows.size() < want.size()) want.resize(r.rows.size());
            if (o.k == 'n' && !r.ended && r.rows.size() < want.size()) want.resize(r.rows.size());
            if (r.partial) {
                std::size_t j = 0;
                for (auto& x : r.rows) {
                    while (j < want.size() && !(want[j] == x)) ++j;
                    if (j++ >= want.size()) return no(o, r, "(rows not in the table)");
                }
            } else if (r.rows != want) {
                std::string s = "rows";
                for (auto& x : want) s += " " + x.first + "=" + x.second;
                return no(o, r, s);
            }
            break;
        }
        default: break;
    }
    return true;
}
bool Model::replay(const TxP& p, const std::vector<OpRes>& rs, std::string* why) {
    TxView v;
    v.t.swap(t);
    bool ok = true;
    for (std::size_t i = 0; i < rs.size() && ok; ++i) ok = v.step(p.ops[i], rs[i], loose_limit, why);
    t.swap(v.t);
    return ok;
}

std::string dump(const Tables& t) {
    std::string s;
    for (std::size_t i = 0; i < t.size(); ++i) {
        s += static_cast<char>('A' + i);
        s += "{";
        for (auto& kv : t[i]) s += kv.first + "=" + kv.second + " ";
        s += "}";
    }
    return s;
}

OracleOut serializable(const Prog& p, const std::vector<TxRes>& r, const Tables* fin, bool rt) {
    std::vector<int> c;
    for (std::size_t i = 0; i < r.size(); ++i)
        if (r[i].out == COMMITTED) c.push_back(static_cast<int>(i));
    OracleOut out;
    std::size_t best = 0;
    std::vector<int> ord;
    std::vector<char> used(r.size(), 0);
    std::function<bool(const Model&)> rec = [&](const Model& m) -> bool {
        if (ord.size() == c.size()) {
            if (fin && m.t != *fin) {
                if (best <= c.size()) {
                    best = c.size() + 1;
                    out.why = "final state is " + dump(*fin) + ", the serial order gives " + dump(m.t);
                }
                return false;
            }
            return true;
        }
        for (int i : c) {
            auto ui = static_cast<std::size_t>(i);
            if (used[ui]) continue;
            if (rt && p.txs[ui].type == 'S') {
                bool bad = false;
                for (int j : c) {
                    auto uj = static_cast<std::size_t>(j);
                    if (!used[uj] && j != i && p.txs[uj].type == 'S' && r[uj].te < r[ui].tb) bad = true;
                }
                if (bad) continue;
            }
            Model n = m;
            std::string why;
            if (!n.replay(p.txs[ui], r[ui].r, &why)) {
                if (ord.size() + 1 > best) {
                    best = ord.size() + 1;
                    out.why = "after";
                    for (int q : ord) out.why += " T" + std::to_string(q);
                    out.why += ": T" + std::to_string(i) + ": " + why;
                }
                continue;
            }
            used[ui] = 1;
            ord.push_back(i);
            if (rec(n)) return true;
            ord.pop_back();
            used[ui] = 0;
        }
        return false;
    };
    Model m0;
    m0.t = p.init;
    m0.loose_limit = p.loose_limit;
    out.ok = rec(m0);
    if (out.ok) { out.order = ord; out.why.clear(); }
    return out;
}

std::string describe(const Prog& p, const std::vector<TxRes>& r, const Tables* fin) {
    std::ostringstream os;
    for (std::size_t i = 0; i < r.size(); ++i) {
        static const char* on[] = {"not begun", "running", "waiting", "committed", "aborted"};
        os << "T" << i << "(" << p.txs[i].type << ") " << on[r[i].out] << " [" << r[i].tb << "," << r[i].te << "]";
        if (r[i].commit_called) os << " commit=" << r[i].commit_st << " marker=" << r[i].marker;
        os << ":";
        for (std::size_t o = 0; o < r[i].r.size(); ++o) {
            if (!r[i].r[o].ran) continue;
            os << "  " << p.txs[i].ops[o].text << " -> " << r[i].r[o].st;
            for (auto& x : r[i].r[o].rows) os << " " << x.first << "=" << x.second;
            if (r[i].r[o].partial) os << " (partial)";
        }
        os << "\n";
    }
    if (fin) os << "final " << dump(*fin) << "\n";
    return os.str();
}

std::string signature(const Prog& p, const std::vector<TxRes>& r, const Tables* fin, bool rt) {
    std::string s;
    for (std::size_t i = 0; i < r.size(); ++i) {
        s += static_cast<char>('0' + r[i].out);
        for (auto& x : r[i].r) {
            s += static_cast<char>(x.ran ? static_cast<int>(x.st) + 40 : 1);
            s += x.partial ? 'p' : x.ended ? 'e' : 'f';
            for (auto& kv : x.rows) s += kv.first + "=" + kv.second + ",";
        }
        s += '|';
    }
    if (rt)
        for (std::size_t i = 0; i < r.size(); ++i)
            for (std::size_t j = 0; j < r.size(); ++j)
                if (i != j && p.txs[i].type == 'S' && p.txs[j].type == 'S') s += (r[i].te < r[j].tb) ? '1' : '0';
    if (fin) s += dump(*fin);
    return s;
}

// ---- execution -------------------------------------------------------------------
Status start(const EngineCfg& c, limestone::api::medium m) {
    database_options o;
    o.set_epoch_time(1000);
    o.set_waiting_resolver_threads(static_cast<std::size_t>(c.workers));
    o.set_iterator_based_scan(c.iscan);
    o.set_index_restore_threads(static_cast<std::size_t>(c.restore_threads));
    if (c.restore) o.set_open_mode(database_options::open_mode::RESTORE);
    limestone::api::datastore::set_initial(std::move(m));
    auto* ds = new limestone::api::datastore();
    if (c.restore) { ds->recover(); }
    return init(o, ds);
}

void prepare(Env& e, const Prog& p, const std::string& tag) {
    e.st.assign(static_cast<std::size_t>(p.nst), 0);
    e.clock = 0;
    for (int i = 0; i < p.nst; ++i) {
        auto rc = create_storage(tag + static_cast<char>('A' + i), e.st[static_cast<std::size_t>(i)]);
        if (rc != Status::OK) vt::fail("setup", "create_storage failed");
    }
    while (e.tok.size() < p.txs.size() + 1) {
        Token t{};
        if (enter(t) != Status::OK) vt::fail("setup", "enter failed");
        e.tok.push_back(t);
    }
    bool any = !p.tomb.empty();
    for (auto& t : p.init) any |= !t.empty();
    if (!any) return;
    Token t = e.tok.back();
    tx_begin({t});
    for (std::size_t i = 0; i < p.init.size(); ++i)
        for (auto& kv : p.init[i]) insert(t, e.st[i], kv.first, kv.second);
    for (auto& x : p.tomb) insert(t, e.st[static_cast<std::size_t>(x.first)], x.second, "old");
    if (commit(t) != Status::OK) vt::fail("setup", "preload commit failed");
    if (p.tomb.empty()) return;
    tx_begin({t});
    for (auto& x : p.tomb) delete_record(t, e.st[static_cast<std::size_t>(x.first)], x.second);
    if (commit(t) != Status::OK) vt::fail("setup", "preload delete failed");
}

void begin_tx(Env& e, const Prog& p, int i, TxRes& r) {
    const TxP& t = p.txs[static_cast<std::size_t>(i)];
    r.r.assign(t.ops.size(), {});
    r.tb = ++e.clock;
    Token tk = e.tok[static_cast<std::size_t>(i)];
    Status rc;
    if (t.type == 'S') rc = tx_begin({tk});
    else if (t.type == 'R') rc = tx_begin({tk, transaction_options::transaction_type::READ_ONLY});
    else {
        transaction_options::write_preserve_type wp;
        for (int s : t.wp) wp.push_back(e.st[static_cast<std::size_t>(s)]);
        transaction_options::read_area ra;
        std::set<Storage> ps, ns;
        for (int s : t.ra_pos) ps.insert(e.st[static_cast<std::size_t>(s)]);
        for (int s : t.ra_neg) ns.insert(e.st[static_cast<std::size_t>(s)]);
        ra = transaction_options::read_area(ps, ns);
        rc = tx_begin({tk, transaction_options::transaction_type::LONG, wp, ra});
    }
    if (rc != Status::OK) {
        std::ostringstream os;
        os << "tx_begin refused: " << rc;
        r.bad = os.str();
        r.out = ABORTED;
        r.te = ++e.clock;
        return;
    }
    r.out = RUNNING;
    if (e.watch) {
        Status s = acquire_tx_state_handle(tk, r.sth);
        if (s != Status::OK) { std::ostringstream os; os << "acquire_tx_state_handle answered " << s; r.bad = os.str(); }
    }
}

void do_op(Token tk, Storage st, const Op& op, OpRes& r) {
    r.ran = true;
    std::string v;
    switch (op.k) {
        case 'g':
            r.st = search_key(tk, st, op.key, v);
            if (r.st == Status::OK) r.rows.emplace_back(op.key, v);
            break;
        case 'e': r.st = exist_key(tk, st, op.key); break;
        case 'H': {
            bool top = false;
            r.st = check_ltx_is_highest_priority(tk, top);
            r.rows = {{"", top ? "first" : "not first"}};
            break;
        }
        case 'i':
        case 'u':
        case 'p': {
            std::vector<std::uint64_t> l;
            if (LOBS) { l = lobs_of(op.val); LOB_VALUES.insert(op.val); }
            r.st = (op.k == 'i' ? insert : op.k == 'u' ? update : upsert)(tk, st, op.key, op.val, l.data(), l.size());
            break;
        }
        case 'd': r.st = delete_record(tk, st, op.key); break;
        case 's': {
            ScanHandle hd{};
            r.st = open_scan(tk, st, op.key, op.le, op.rkey, op.re, hd, op.max, op.rev);
            if (r.st == Status::WARN_NOT_FOUND) { r.st = Status::OK; break; }
            if (r.st != Status::OK) break;
            for (bool moved = false;; moved = true) {
                std::string k;
                Status s = read_key_from_scan(tk, hd, k);
                Status s2 = s;
                if (s == Status::OK) s2 = read_value_from_scan(tk, hd, v);
                if (s == Status::OK && s2 == Status::OK) {
                    r.rows.emplace_back(k, v);
                } else if (is_err(s) || is_err(s2)) {
                    r.st = is_err(s) ? s : s2;
                    return;
                } else if (s2 == Status::WARN_CONCURRENT_INSERT || s2 == Status::WARN_CONCURRENT_UPDATE) {
                    r.partial = true;
                } else if (s2 == Status::WARN_SCAN_LIMIT) {
                    break;
                } else if (s2 == Status::WARN_NOT_FOUND) { // an entry gone meanwhile is skipped
                    r.gone = r.gone || moved;
                } else {
                    r.st = s2;
                    break;
                }
                s = next(tk, hd);
                if (s == Status::WARN_SCAN_LIMIT) break;
                if (is_err(s)) { r.st = s; return; }
                if (s != Status::OK) { r.st = s; break; }
            }
            if (r.st == Status::OK) close_scan(tk, hd);
            break;
        }
        default: break;
    }
}

// stepped scans: every step reads the next entry that is there
void scan_op(Token tk, Storage st, const Op& op, OpRes& r, TxRes& x) {
    r.ran = true;
    if (op.k == 'o') {
        if (x.sc) close_scan(tk, x.sh);
        x.sc = false;
        r.st = open_scan(tk, st, op.key, op.le, op.rkey, op.re, x.sh, op.max, op.rev);
        if (r.st != Status::OK) return;
        x.sc = x.sc_first = true;
        x.sc_partial = x.sc_ended = false;
        x.sc_rows.clear();
        return;
    }
    if (!x.sc) { r.ran = false; return; }
    while (!x.sc_ended) {
        std::string k, v;
        Status s = x.sc_first ? Status::OK : next(tk, x.sh);
        bool moved = !x.sc_first;
        x.sc_first = false;
        if (s == Status::OK) s = read_key_from_scan(tk, x.sh, k);
        if (s == Status::OK) s = read_value_from_scan(tk, x.sh, v);
        if (s == Status::WARN_SCAN_LIMIT) { x.sc_ended = true; break; }
        if (s == Status::WARN_NOT_FOUND) { r.gone = r.gone || moved; continue; }
        if (s == Status::WARN_CONCURRENT_INSERT || s == Status::WARN_CONCURRENT_UPDATE) { x.sc_partial = true; continue; }
        if (s != Status::OK) { r.st = s; return; }
        x.sc_rows.emplace_back(k, v);
        break;
    }
    r.rows = x.sc_rows;
    r.ended = x.sc_ended;
    r.partial = x.sc_partial;
}

void run_op(Env& e, const Prog& p, int i, std::size_t o, TxRes& r) {
    if (r.out != RUNNING) return;
    const TxP& t = p.txs[static_cast<std::size_t>(i)];
    r.in_call = true;
    if (t.ops[o].k == 'w') {
        r.r[o].ran = true;
        if (e.all) watch_states(e, p, *e.all);
    } else if (t.ops[o].k == 'o' || t.ops[o].k == 'n')
        scan_op(e.tok[static_cast<std::size_t>(i)], e.st[static_cast<std::size_t>(t.ops[o].st)], t.ops[o], r.r[o], r);
    else do_op(e.tok[static_cast<std::size_t>(i)], e.st[static_cast<std::size_t>(t.ops[o].st)], t.ops[o], r.r[o]);
    r.in_call = false;
    r.r[o].at = ++e.clock;
    if (is_err(r.r[o].st)) {
        r.out = ABORTED;
        r.rejected = true;
        r.te = ++e.clock;
        auto ri = transaction_result_info(e.tok[static_cast<std::size_t>(i)]);
        r.wp_failed = ri && ri->get_reason_code() == reason_code::CC_OCC_WP_VERIFY;
    }
}

void end_tx(Env& e, const Prog& p, int i, TxRes& r) {
    if (r.out != RUNNING) return;
    Token tk = e.tok[static_cast<std::size_t>(i)];
    r.in_call = true;
    if (p.txs[static_cast<std::size_t>(i)].user_abort) {
        Status s = abort(tk);
        if (s != Status::OK) { std::ostringstream os; os << "abort answered " << s; r.bad = os.str(); }
        r.out = ABORTED;
        r.te = ++e.clock;
        return;
    }
    r.commit_called = true;
    r.tc = ++e.clock;
    bool done = commit(tk, [&e, &r](Status s, reason_code rc, durability_marker_type m) {
        ++r.callbacks;
        r.wp_failed = is_err(s) && rc == reason_code::CC_OCC_WP_VERIFY;
        r.cbst = s;
        r.commit_st = s;
        r.marker = m;
        if (r.out == COMMITTED || r.out == ABORTED) return;
        r.out = s == Status::OK ? COMMITTED : ABORTED;
        r.te = ++e.clock;
    });
    if (!done && r.out == RUNNING) { r.out = WAITING; r.waited = true; }
    if (done && r.callbacks != 1) r.bad = "commit returned decided without exactly one callback";
    // a refused commit (transaction not ready yet) leaves the transaction running
    if (r.callbacks && (r.cbst == Status::WARN_PREMATURE)) {
        r.out = ABORTED;
        abort(tk);
    }
}

bool resolve(Env& e, std::vector<TxRes>& r, int max_rounds) {
    (void) e;
    for (int k = 0;; ++k) {
        bool w = false;
        for (auto& x : r) w |= x.out == WAITING;
        if (!w) return true;
        if (k >= max_rounds) return false;
        vt::tick_epoch();
        vt::tick_bg();
    }
}

Tables read_back(Env& e, const Prog& p) {
    Tables f(static_cast<std::size_t>(p.nst));
    Token t = e.tok.back();
    std::string why;
    for (int attempt = 0;; ++attempt) {
        for (auto& x : f) x.clear();
        if (tx_begin({t}) != Status::OK) vt::fail("read-back", "tx_begin refused in a quiescent engine");
        bool ok = true;
        for (int i = 0; i < p.nst && ok; ++i) {
            Op o;
            o.k = 's';
            o.st = i;
            OpRes r;
            do_op(t, e.st[static_cast<std::size_t>(i)], o, r);
            if (r.st != Status::OK || r.partial) {
                std::ostringstream os;
                os << "scan of table " << static_cast<char>('A' + i) << ": " << r.st << (r.partial ? " partial" : "");
                why = os.str();
                ok = false;
                if (!is_err(r.st)) abort(t);
                break;
            }
            for (auto& kv : r.rows)
                if (!f[static_cast<std::size_t>(i)].emplace(kv.first, kv.second).second)
                    vt::fail("read-back", "key " + kv.first + " returned twice by a scan");
        }
        // the same contents through point reads
        for (std::size_t i = 0; i < p.keys.size() && ok; ++i)
            for (auto& k : p.keys[i]) {
                std::string v;
                Status s = search_key(t, e.st[i], k, v);
                if (s == Status::WARN_CONCURRENT_INSERT || is_err(s)) {
                    why = "point read refused";
                    ok = false;
                    if (!is_err(s)) abort(t);
                    break;
                }
                auto it = f[i].find(k);
                if ((s == Status::OK) != (it != f[i].end()) || (s == Status::OK && it->second != v)) {
                    std::ostringstream os;
                    os << "table " << static_cast<char>('A' + i) << " key " << k << ": scan "
                       << (it == f[i].end() ? std::string("has nothing") : "has " + it->second) << ", point read answers " << s << " " << v;
                    vt::fail("read-back", os.str());
                }
            }
        if (ok) {
            Status cs = commit(t);
            if (cs == Status::OK) return f;
            why = "commit refused";
        }
        if (attempt > 5) vt::fail("read-back", "a short transaction cannot read all tables in a quiescent engine: " + why);
        vt::tick_epoch();
        vt::tick_bg();
    }
}

int steps_of(const TxP& p) {
    int n = 1 + (p.type == 'S' ? 0 : 1);
    if (p.whole) return n;
    for (auto& o : p.ops) n += o.glue ? 0 : 1;
    return n;
}

static char state_letter(TxState::StateKind k) {
    switch (k) {
        case TxState::StateKind::WAITING_START: return 'w';
        case TxState::StateKind::STARTED: return 's';
        case TxState::StateKind::WAITING_CC_COMMIT: return 'c';
        case TxState::StateKind::ABORTED: return 'x';
        case TxState::StateKind::WAITING_DURABLE: return 'd';
        case TxState::StateKind::DURABLE: return 'D';
        default: return '?';
    }
}
void watch_states(Env& e, const Prog& p, std::vector<TxRes>& r) {
    (void) e;
    for (std::size_t i = 0; i < r.size(); ++i) {
        auto& x = r[i];
        if (!x.sth || !x.bad.empty()) continue;
        TxState ts;
        Outcome before = x.out;
        bool called = x.commit_called;
        bool worked = false;          // an operation was accepted
        for (auto& o : x.r) worked |= o.ran && o.st == Status::OK;
        Status s = check_tx_state(x.sth, ts);
        std::ostringstream os;
        if (s != Status::OK) { os << "check_tx_state answered " << s; x.bad = os.str(); continue; }
        char c = state_letter(ts.state_kind());
        static const std::string order = "wscdD";
        std::string want;
        switch (before) {
            case RUNNING:
                if (called) want = "sxcdD";
                else want = p.txs[i].type == 'S' || worked ? "s" : "ws";
                break;
            case WAITING: want = "cxdD"; break;
            case COMMITTED: want = "dD"; break;
            case ABORTED: want = "x"; break;
            default: want = "ws"; break;
        }
        // the call may have been decided meanwhile
        if (before == RUNNING && x.in_call) want += "sx";
        if (x.out != before) want += "sxcdD";
        if (want.find(c) == std::string::npos) {
            x.bad = std::string("transaction ") + std::to_string(i) + " is reported in state '" + c + "', possible: " + want + ", seen before: " + x.states;
            continue;
        }
        if (!x.states.empty()) {
            char b = x.states.back();
            bool fwd = b == c || (b == 'x' ? false : (c == 'x' ? b != 'd' && b != 'D' : order.find(b) <= order.find(c)));
            if (!fwd) { x.bad = std::string("the reported state of transaction ") + std::to_string(i) + " moved from '" + b + "' to '" + c + "'"; continue; }
            if (b == c) continue;
        }
        x.states += c;
    }
}
void release_states(std::vector<TxRes>& r) {
    for (auto& x : r) {
        if (!x.sth) continue;
        Status s = release_tx_state_handle(x.sth);
        if (s != Status::OK && x.bad.empty()) { std::ostringstream os; os << "release_tx_state_handle answered " << s; x.bad = os.str(); }
        TxState ts;
        s = check_tx_state(x.sth, ts);
        if (s != Status::WARN_INVALID_HANDLE && x.bad.empty()) { std::ostringstream os; os << "check_tx_state of a released handle answered " << s; x.bad = os.str(); }
        x.sth = 0;
    }
}

// ---- crashes -------------------------------------------------------------------------
static Crash* MON = nullptr;
static std::uint64_t DM = 0;
static bool DMREG = false;
void Crash::before() {
    auto* m = limestone::api::datastore::current();
    base_ = m->log.size();
    pts.clear();
    bad.clear();
    seen = 0;
}
Tables Crash::kept() const {
    auto* m = limestone::api::datastore::current();
    Tables t(static_cast<std::size_t>(p_->nst));
    std::map<std::pair<std::size_t, std::string>, std::pair<limestone::api::write_version_type, const limestone::api::medium::entry*>> best;
    for (std::size_t i = base_; i < m->log.size(); ++i) {
        auto& l = m->log[i];
        if (l.session_epoch > m->durable) continue;
        if (l.k != limestone::api::medium::PUT && l.k != limestone::api::medium::DEL) continue;
        for (std::size_t k = 0; k < e_->st.size(); ++k) {
            if (e_->st[k] != l.st) continue;
            auto& b = best[{k, l.key}];
            if (b.second && l.wv < b.first) continue;
            b = {l.wv, &l};
        }
    }
    for (auto& b : best)
        if (b.second.second->k == limestone::api::medium::PUT) t[b.first.first][b.first.second] = b.second.second->val;
    return t;
}
void Crash::point(const char* ev) {
    ++seen;
    Pt q;
    q.ev = ev;
    q.got = kept();
    q.dm = DM;
    for (std::size_t i = 0; i < r_->size(); ++i) {
        auto& x = (*r_)[i];
        if (x.commit_called) q.req |= 1u << i;
        if ((x.callbacks && x.cbst == Status::OK && x.marker <= DM) || (!x.states.empty() && x.states.back() == 'D')) q.dur |= 1u << i;
    }
    if (!pts.empty() && pts.back().got == q.got && pts.back().req == q.req && pts.back().dur == q.dur) return;
    pts.push_back(std::move(q));
}
void Crash::attach(Env& e, const Prog& p, std::vector<TxRes>& r) {
    e_ = &e;
    p_ = &p;
    r_ = &r;
    MON = this;
    if (!DMREG) {
        DMREG = true;
        register_durability_callback([](durability_marker_type m) {
            vt::no_preempt np;
            if (MON && m < DM) MON->bad = "the reported durability moved backwards";
            DM = m;
            if (MON) MON->point("durability report");
        });
    }
    limestone::api::datastore::set_event_hook([](const char* w) { if (MON) MON->point(w); });
    point("start");
}
void Crash::settle() {
    for (int k = 0; k < 4; ++k) {
        if (e_->watch) watch_states(*e_, *p_, *r_);
        vt::tick_bg();
        vt::tick_epoch();
    }
    if (e_->watch) watch_states(*e_, *p_, *r_);
    point("end");
    auto& q = pts.back();
    for (std::size_t i = 0; i < r_->size(); ++i) {
        auto& x = (*r_)[i];
        if (x.out == COMMITTED && !(q.dur >> i & 1) && bad.empty()) bad = "transaction " + std::to_string(i) + " is never reported durable (marker " + std::to_string(x.marker) + ", reported " + std::to_string(DM) + ")";
        if (x.out == COMMITTED && e_->watch && (x.states.empty() || x.states.back() != 'D') && bad.empty()) bad = "transaction " + std::to_string(i) + " never reaches the durable state: " + x.states;
    }
}
void Crash::detach() {
    MON = nullptr;
    limestone::api::datastore::set_event_hook(nullptr);
}
std::string Crash::sig() const {
    std::string s;
    for (auto& q : pts) s += dump(q.got) + std::to_string(q.req) + "/" + std::to_string(q.dur) + ";";
    return s;
}
bool Crash::judge(std::string* why) {
    if (!bad.empty()) { *why = bad; return false; }
    std::uint32_t com = 0;
    for (std::size_t i = 0; i < r_->size(); ++i) if ((*r_)[i].out == COMMITTED) com |= 1u << i;
    for (auto& q : pts) {
        std::uint32_t may = q.req & com;
        bool ok = false;
        std::uint32_t opt = may & ~q.dur;
        if ((q.dur & ~may) == 0)
            for (std::uint32_t s = opt;; s = (s - 1) & opt) {
                auto r2 = *r_;
                for (std::size_t i = 0; i < r2.size(); ++i) if (!((s | q.dur) >> i & 1)) r2[i].out = ABORTED;
                if (serializable(*p_, r2, &q.got, false).ok) { ok = true; break; }
                if (s == 0) break;
            }
        if (!ok) {
            std::string d;
            for (std::size_t i = 0; i < r_->size(); ++i) if (q.dur >> i & 1) d += " T" + std::to_string(i);
            *why = "a crash at '" + q.ev + "' leaves " + dump(q.got) + ", reported durable:" + (d.empty() ? " none" : d);
            return false;
        }
    }
    return true;
}
ExecOut run_history(Env& e, const Prog& p, const History& hist, bool lazy) {
    ExecOut x;
    std::size_t n = p.txs.size();
    x.r.assign(n, {});
    e.all = &x.r;
    if (e.crash) e.crash->attach(e, p, x.r);
    std::vector<std::size_t> pos(n, 0);
    std::vector<bool> fresh(n, false);
    auto tick = [&] { vt::tick_epoch();
        for (std::size_t i = 0; i < n; ++i) if (fresh[i]) x.r[i].ts = e.clock;
        fresh.assign(n, false);
    };
    for (auto a : hist.act) {
        if (e.watch) watch_states(e, p, x.r);
        if (a == ACT_E) { tick(); continue; }
        if (a == ACT_G) { vt::tick_bg(); continue; }
        auto& r = x.r[a];
        const TxP& t = p.txs[a];
        ++e.clock;
        if (r.out == NOT_BEGUN) {
            begin_tx(e, p, a, r);
            if (t.type != 'S') {
                fresh[a] = true;
                r.ts = UINT32_MAX;
                if (!lazy) tick();
                continue;
            }
        }
        // giving up needs no start
        if (fresh[a] && !(t.user_abort && t.ops.empty())) tick();
        if (t.whole) {
            while (pos[a] < t.ops.size()) { run_op(e, p, a, pos[a]++, r); ++e.clock; }
            end_tx(e, p, a, r);
        } else if (pos[a] < t.ops.size()) {
            run_op(e, p, a, pos[a]++, r);
            while (pos[a] < t.ops.size() && t.ops[pos[a]].glue) run_op(e, p, a, pos[a]++, r);
        }
        else end_tx(e, p, a, r);
    }
    x.stuck = !resolve(e, x.r);
    if (!x.stuck) x.fin = read_back(e, p);
    if (!x.stuck && e.crash) {
        e.crash->settle();
        e.crash->judge(&x.crash);
    }
    if (e.crash) e.crash->detach();
    if (e.watch) release_states(x.r);
    return x;
}

static bool lone(const std::vector<TxRes>& r, std::size_t i) {
    for (std::size_t j = 0; j < r.size(); ++j) {
        if (j == i || r[j].out == NOT_BEGUN) continue;
        if (r[j].te < r[i].tb || r[i].te < r[j].tb) continue;
        return false;
    }
    return true;
}
bool undisturbed(const Prog& p, const std::vector<TxRes>& r, std::string* why) {
    for (std::size_t i = 0; i < r.size(); ++i) {
        if (r[i].out == NOT_BEGUN) continue;
        bool l = lone(r, i);
        for (std::size_t o = 0; o < r[i].r.size(); ++o) {
            auto& x = r[i].r[o];
            if (!x.ran) continue;
            if (l && (no_observation(x.st) || x.partial) && x.st != Status::WARN_WRITE_WITHOUT_WP &&
                !(p.txs[i].type == 'R' && x.st == Status::WARN_ILLEGAL_OPERATION) && x.st != Status::ERR_READ_AREA_VIOLATION) {
                std::ostringstream os;
                os << "T" << i << " overlaps nobody, but " << p.txs[i].ops[o].text << " answered " << x.st;
                *why = os.str();
                return false;
            }
            if (x.st == Status::WARN_CONFLICT_ON_WRITE_PRESERVE) {
                bool any = false;
                for (std::size_t j = 0; j < r.size(); ++j) {
                    if (j == i || p.txs[j].type != 'L' || r[j].out == NOT_BEGUN) continue;
                    if (std::find(p.txs[j].wp.begin(), p.txs[j].wp.end(), p.txs[i].ops[o].st) == p.txs[j].wp.end()) continue;
                    char k = p.txs[i].ops[o].k;
                    bool rd = k == 'g' || k == 'e' || k == 's' || k == 'o';
                    any |= r[j].tb < x.at && x.at < r[j].te && (!rd || r[j].ts <= x.at);
                }
                if (!any) {
                    *why = "T" + std::to_string(i) + " " + p.txs[i].ops[o].text + " refused for a declared table, but no such declaration exists";
                    return false;
                }
            }
        }
        if (p.txs[i].type == 'S' && r[i].wp_failed) {
            bool any = false;
            for (std::size_t j = 0; j < r.size(); ++j) {
                if (p.txs[j].type != 'L' || r[j].out == NOT_BEGUN) continue;
                bool uses = false;
                for (auto& o : p.txs[i].ops) uses |= std::find(p.txs[j].wp.begin(), p.txs[j].wp.end(), o.st) != p.txs[j].wp.end();
                any |= uses && r[j].tb < r[i].te && r[j].ts <= r[i].te && (r[i].te < r[j].te || !r[j].ts);
            }
            if (!any) {
                *why = "T" + std::to_string(i) + " was given up for a declared table, but no such declaration was in effect";
                return false;
            }
        }
        if (l && r[i].commit_called && r[i].out == ABORTED) {
            *why = "T" + std::to_string(i) + " overlaps nobody, but its commit failed";
            return false;
        }
    }
    return true;
}
bool ltx_priority(const Prog& p, const std::vector<TxRes>& r, std::string* why) {
    // what a long transaction is told about its priority
    for (std::size_t i = 0; i < r.size(); ++i)
        for (std::size_t o = 0; o < r[i].r.size(); ++o) {
            auto& x = r[i].r[o];
            if (p.txs[i].ops[o].k != 'H' || !x.ran) continue;
            bool before = false, reader = false;
            for (std::size_t j = 0; j < r.size(); ++j) {
                if (r[j].out == NOT_BEGUN || r[j].tb > r[i].tb || j == i || r[j].te < x.at) continue;
                before |= p.txs[j].type == 'L';
                reader |= p.txs[j].type == 'R';
            }
            bool good = p.txs[i].type != 'L' ? x.st == Status::WARN_INVALID_ARGS
                        : x.st == Status::OK && x.rows.size() == 1 && (before ? x.rows[0].second == "not first" : reader || x.rows[0].second == "first");
            if (good) continue;
            std::ostringstream os;
            os << "T" << i << " asked for its priority is answered " << x.st << " " << (x.rows.empty() ? "" : x.rows[0].second) << (before ? ", an earlier long one is open" : ", no earlier one is open");
            *why = os.str();
            return false;
        }
    for (std::size_t i = 0; i < r.size(); ++i) {
        if (p.txs[i].type != 'L' || r[i].out == NOT_BEGUN) continue;
        bool other = false;
        for (std::size_t j = 0; j < r.size(); ++j)
            other |= j != i && p.txs[j].type == 'L' && r[j].out != NOT_BEGUN && !(r[j].te < r[i].tb || r[i].te < r[j].tb);
        if (other) continue;
        for (std::size_t o = 0; o < r[i].r.size(); ++o)
            if (r[i].r[o].ran && (r[i].r[o].st == Status::ERR_CC || r[i].r[o].st == Status::WARN_CONFLICT_ON_WRITE_PRESERVE)) {
                *why = "long T" + std::to_string(i) + " beside short transactions only: " + p.txs[i].ops[o].text + " failed";
                return false;
            }
        if (r[i].commit_called && r[i].out == ABORTED) { *why = "long T" + std::to_string(i) + " beside short transactions only: commit failed"; return false; }
        if (r[i].waited) { *why = "long T" + std::to_string(i) + " beside short transactions only: commit had to wait"; return false; }
    }
    return true;
}
bool ltx_areas(const Prog& p, const std::vector<TxRes>& r, std::string* why) {
    auto in = [](const std::vector<int>& l, int s) { return std::find(l.begin(), l.end(), s) != l.end(); };
    for (std::size_t i = 0; i < r.size(); ++i) {
        const TxP& t = p.txs[i];
        if (t.type != 'L' || r[i].out == NOT_BEGUN) continue;
        std::uint32_t eff = 0;            // it has certainly started
        for (std::size_t o = 0; o < r[i].r.size(); ++o) {
            auto& x = r[i].r[o];
            if (!x.ran || x.st == Status::WARN_PREMATURE || t.ops[o].k == 'H') continue;
            if (!eff) eff = x.at;
            const Op& op = t.ops[o];
            bool w = op.k == 'i' || op.k == 'u' || op.k == 'p' || op.k == 'd';
            bool may_w = in(t.wp, op.st), may_r = !in(t.ra_neg, op.st) && (t.ra_pos.empty() || in(t.ra_pos, op.st));
            if (w && !may_w && x.st != Status::WARN_WRITE_WITHOUT_WP) { *why = "long T" + std::to_string(i) + ": " + op.text + " outside the declared tables"; return false; }
            if (!w && !may_r && x.st != Status::ERR_READ_AREA_VIOLATION) { *why = "long T" + std::to_string(i) + ": " + op.text + " outside the read area"; return false; }
        }
        if (!eff) continue;
        std::uint32_t end = r[i].commit_called ? r[i].tc : r[i].out == RUNNING ? UINT32_MAX : r[i].te;
        if (r[i].rejected) for (auto& x : r[i].r) if (x.ran && is_err(x.st)) end = std::min(end, x.at);
        for (std::size_t j = 0; j < r.size(); ++j) {
            if (p.txs[j].type != 'S' || r[j].out != COMMITTED || !(eff < r[j].tc && r[j].te < end)) continue;
            for (std::size_t o = 0; o < r[j].r.size(); ++o) {
                auto& x = r[j].r[o];
                const Op& op = p.txs[j].ops[o];
                if (x.ran && (op.k == 'g' || op.k == 'e' || op.k == 's') && in(t.wp, op.st) && !no_observation(x.st)) {
                    *why = "short T" + std::to_string(j) + " committed having read " + op.text + ", declared by the running long T" + std::to_string(i);
                    return false;
                }
            }
        }
    }
    return true;
}
bool rtx_unfailing(const Prog& p, const std::vector<TxRes>& r, std::string* why) {
    for (std::size_t i = 0; i < r.size(); ++i) {
        if (p.txs[i].type != 'R' || r[i].out == NOT_BEGUN) continue;
        for (std::size_t o = 0; o < r[i].r.size(); ++o) {
            auto& x = r[i].r[o];
            char k = p.txs[i].ops[o].k;
            bool w = k == 'i' || k == 'u' || k == 'p' || k == 'd';
            if (!x.ran) continue;
            bool good = w ? x.st == Status::WARN_ILLEGAL_OPERATION : (x.st == Status::OK || x.st == Status::WARN_NOT_FOUND) && !x.partial;
            if (!good) {
                std::ostringstream os;
                os << "read-only T" << i << ": " << p.txs[i].ops[o].text << " answered " << x.st << (x.partial ? " (partial)" : "");
                *why = os.str();
                return false;
            }
        }
        if (r[i].commit_called && (r[i].out != COMMITTED || r[i].waited)) { *why = "read-only T" + std::to_string(i) + ": commit failed or had to wait"; return false; }
    }
    return true;
}

bool clean_reads(const Prog& p, const std::vector<TxRes>& r, std::string* why) {
    for (std::size_t i = 0; i < r.size(); ++i)
        for (std::size_t o = 0; o < r[i].r.size(); ++o) {
            auto& x = r[i].r[o];
            if (!x.ran) continue;
            const Op& op = p.txs[i].ops[o];
            for (auto& kv : x.rows) {
                bool ok = false;
                auto it = p.init[static_cast<std::size_t>(op.st)].find(kv.first);
                ok = it != p.init[static_cast<std::size_t>(op.st)].end() && it->second == kv.second;
                for (std::size_t j = 0; j < r.size() && !ok; ++j)
                    for (std::size_t q = 0; q < p.txs[j].ops.size() && !ok; ++q) {
                        const Op& w = p.txs[j].ops[q];
                        if ((w.k != 'i' && w.k != 'u' && w.k != 'p') || w.st != op.st || w.key != kv.first || w.val != kv.second) continue;
                        if (q >= r[j].r.size() || !r[j].r[q].ran || r[j].r[q].st != Status::OK) continue;
                        ok = j == i ? q < o : (r[j].out == COMMITTED && r[j].tc < x.at);
                    }
                if (!ok) {
                    *why = "T" + std::to_string(i) + " " + op.text + " returned " + kv.first + "=" + kv.second + ", which nobody had committed";
                    return false;
                }
            }
        }
    return true;
}

std::string text(const History& hs) {
    std::string s;
    for (auto a : hs.act) s += a == ACT_E ? 'E' : a == ACT_G ? 'G' : static_cast<char>('0' + a);
    return s;
}
History parse_history(const std::string& s) {
    History hs;
    for (char c : s) hs.act.push_back(c == 'E' ? ACT_E : c == 'G' ? ACT_G : static_cast<std::uint8_t>(c - '0'));
    return hs;
}
} // namespace h
