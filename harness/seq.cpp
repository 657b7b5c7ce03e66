// Enumerates every sequence of calls up to a length over an alphabet, on one session of an otherwise
// idle engine, against the reference model.
//   n3 [odd] [pre=tok,tok] [post=tok,tok] :: <initial contents> || <transaction head> | <alphabet>
// tokens: operations as in programs; C commit; X abort; E epoch; G background work; R a read-only
// transaction reading everything; b<T> 110 upserts; o<range> open a scan; n read and step; k close it
// with "ses" the session and the begin of transactions are part of the sequence, and calls are made in
// every state: <S <R begin; <L[:A][+A][-A] long, declared for writing / positive / negative read area;
// <U long with an unknown table; <W short with a declared table; V leave; N enter; h state handle; y its release; t id; r result;
// q update of a sequence
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

#include "lib/h.h"
#include "lib/par.h"

#include "shirakami/api_sequence.h"

using namespace h;
using namespace shirakami;

struct Item {
    std::string line, head;
    int n{1};
    bool odd{false}, ses{false};
    Prog p;                              // one transaction whose operations are the alphabet
    std::vector<std::string> tok, pre, post;
    std::uint64_t total{1};
};
static std::vector<std::string> words(const std::string& s, char sep) {
    std::vector<std::string> v;
    std::string w;
    std::istringstream is(s);
    while (std::getline(is, w, sep)) if (!w.empty()) v.push_back(w);
    return v;
}
static const std::string LONGKEY(30 * 1024, 'z');
static void make_odd(std::string& k) {
    if (k == "a") k = "";
    else if (k == "b") k = std::string(1, '\0');
    else if (k == "c") k = "aaaaaaaa";
    else if (k == "d") k = std::string("aaaaaaaa\0", 9);
    else if (k == "e") k = "aaaaaaaab";
    else if (k == "f") k = LONGKEY;
    else if (k == "y") k = LONGKEY + "z";
}
static Item parse_item(const std::string& l) {
    Item it;
    it.line = l;
    auto c = l.find("::");
    it.head = l.substr(0, c);
    std::istringstream is(it.head);
    std::string w;
    while (is >> w) {
        if (w == "odd") it.odd = true;
        else if (w == "ses") it.ses = true;
        else if (w.rfind("pre=", 0) == 0) it.pre = words(w.substr(4), ';');
        else if (w.rfind("post=", 0) == 0) it.post = words(w.substr(5), ';');
        else if (w[0] == 'n') it.n = std::stoi(w.substr(1));
    }
    std::string body = l.substr(c + 2);
    auto bar = body.rfind('|');
    it.p = parse(body.substr(0, bar));
    std::istringstream al(body.substr(bar + 1));
    while (al >> w) it.tok.push_back(w);
    for (auto& s : {it.pre, it.tok}) for (auto& x : s) if (std::string("idpb").find(x[0]) != std::string::npos) it.p.loose_limit = true;
    for (int i = 0; i < it.n; ++i) it.total *= it.tok.size();
    if (it.odd) {
        Tables t(it.p.init.size());
        for (std::size_t i = 0; i < t.size(); ++i)
            for (auto& kv : it.p.init[i]) { auto k = kv.first; make_odd(k); t[i][k] = kv.second; }
        it.p.init = t;
        for (auto& x : it.p.tomb) make_odd(x.second);
    }
    return it;
}
static std::string odd_value(int i) {
    switch (i % 4) {
        case 0: return "";
        case 1: return std::string("a\0b\0", 4);
        case 2: return std::string(100000, static_cast<char>('A' + i));
        default: return std::string(1, '\xff') + std::to_string(i);
    }
}
static std::string shown(const std::string& s) {
    std::string o;
    for (unsigned char c : s.substr(0, 12)) {
        char b[8];
        if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return s.size() > 12 ? o + "..(" + std::to_string(s.size()) + ")" : o;
}

struct Bad { std::string why; };

static bool LOBS;                     // judge the large objects of every log entry

struct Runner {
    const Item& it;
    Env& e;
    Tables committed;
    TxView v;
    bool open{false}, disturbed{false};
    std::string log;
    int opno{0};
    bool reread{true};
    // the open scan
    bool sc{false};
    ScanHandle sh{};
    Op sop;
    bool first{false}, exhausted{false};
    std::string last;
    std::set<std::string> must;          // visible ever since the scan was opened, not returned yet
    std::uint64_t committedn{0};

    // with ses: the transaction's declaration, whether its start epoch has come, the session
    TxP cur;
    bool started{false}, inside{true};
    reason_code reason{reason_code::UNKNOWN};
    bool reason_known{false};

    Token tk() { return e.tok[0]; }
    const TxP& decl() const { return it.ses ? cur : it.p.txs[0]; }
    void begin() {
        const TxP& t = it.p.txs[0];
        if (t.type == 'R') for (int i = 0; i < 3; ++i) vt::tick_epoch();
        TxRes r;
        begin_tx(e, it.p, 0, r);
        if (!r.bad.empty()) throw Bad{r.bad};
        if (t.type != 'S') vt::tick_epoch();
        open = true;
        disturbed = false;
        v = TxView{};
        v.t = committed;
        sc = false;
    }
    // a sequence shared by all sequences of calls: last committed pair, pair of the open transaction
    static inline SequenceId seqid{};
    static inline SequenceVersion seqver{0}, nextver{0};
    static inline SequenceValue seqval{0};
    SequenceVersion pendver{0};
    void sequence_is() {
        SequenceVersion ver{};
        SequenceValue val{};
        want(read_sequence(seqid, &ver, &val), Status::OK, "read_sequence");
        if (ver != seqver || val != seqval) throw Bad{"the sequence is " + std::to_string(ver) + "/" + std::to_string(val) + ", committed is " + std::to_string(seqver) + "/" + std::to_string(seqval)};
    }
    bool sequences() const { return std::find(it.tok.begin(), it.tok.end(), "q") != it.tok.end(); }
    // state handles of this and earlier transactions of the session
    struct Held { TxStateHandle h; int end; bool durable; };   // end: 0 open, 1 committed, 2 aborted
    std::vector<Held> held;
    void states() {
        for (auto& x : held) {
            if (!open && x.end == 0) x.end = 2;
            TxState ts{};
            Status s = check_tx_state(x.h, ts);
            using K = TxState::StateKind;
            K k = ts.state_kind();
            bool ok = s == Status::OK;
            if (x.end == 0) ok = ok && k == (cur.type == 'S' || started ? K::STARTED : K::WAITING_START);
            else if (x.end == 2) ok = ok && k == K::ABORTED;
            else ok = ok && (k == K::DURABLE || (k == K::WAITING_DURABLE && !x.durable));
            if (ok) { x.durable = k == K::DURABLE; continue; }
            std::ostringstream os;
            os << "check_tx_state answers " << s << ", " << k << " for a transaction that is " << (x.end == 0 ? "open" : x.end == 1 ? "committed" : "aborted");
            throw Bad{os.str()};
        }
    }
    void release() {
        if (held.empty()) return;
        TxState ts{};
        auto h = held.front().h;
        want(release_tx_state_handle(h), Status::OK, "release_tx_state_handle");
        want(check_tx_state(h, ts), Status::WARN_INVALID_HANDLE, "check_tx_state after the release");
        want(release_tx_state_handle(h), Status::WARN_INVALID_HANDLE, "release_tx_state_handle again");
        if (h == handle) handle = 0;
        held.erase(held.begin());
    }
    void ended(bool ok) {
        for (auto& x : held) if (x.end == 0) x.end = ok ? 1 : 2;
        if (ok && pendver) { seqver = pendver; seqval = static_cast<SequenceValue>(pendver * 7); }
        pendver = 0;
        if (ok) { committed = v.t; ++committedn; }
        open = false;
        sc = false;
    }
    void end(bool com) {
        TxRes r;
        r.out = RUNNING;
        if (!com) {
            Status s = abort(tk());
            if (s != Status::OK) throw Bad{"abort refused"};
            ended(false);
            return;
        }
        end_tx(e, it.p, 0, r);
        if (r.out == WAITING) throw Bad{"commit of the only transaction has to wait"};
        if (!r.bad.empty() || r.callbacks != 1) throw Bad{"commit: " + r.bad};
        if (r.out != COMMITTED && !disturbed) {
            std::ostringstream os;
            os << "commit of the only transaction answers " << r.commit_st;
            throw Bad{os.str()};
        }
        ended(r.out == COMMITTED);
    }
    // what a call must answer whatever the contents are; OK: depends on the contents
    Status refusal(const Op& o) {
        const TxP& t = decl();
        bool w = o.k == 'i' || o.k == 'u' || o.k == 'p' || o.k == 'd';
        bool s = o.k == 's' || o.k == 'o';
        if (it.ses && !open) return Status::WARN_NOT_BEGIN;
        if (t.type == 'R' && w) return Status::WARN_ILLEGAL_OPERATION;
        if (!s && o.key.size() > LONGKEY.size()) return Status::WARN_INVALID_KEY_LENGTH;
        if (s && ((o.le != scan_endpoint::INF && o.key.size() > LONGKEY.size()) || (o.re != scan_endpoint::INF && o.rkey.size() > LONGKEY.size()))) return Status::WARN_INVALID_KEY_LENGTH;
        if (o.st == 'Z' - 'A') return Status::WARN_STORAGE_NOT_FOUND;
        if (it.ses && t.type != 'S' && !started) return Status::WARN_PREMATURE;
        if (t.type == 'L' && w && std::find(t.wp.begin(), t.wp.end(), o.st) == t.wp.end()) return Status::WARN_WRITE_WITHOUT_WP;
        if (it.ses && t.type == 'L' && o.k != 'p') {
            auto in = [&](const std::vector<int>& l) { return std::find(l.begin(), l.end(), o.st) != l.end(); };
            if (in(t.ra_neg) || (!t.ra_pos.empty() && !in(t.ra_pos))) return Status::ERR_READ_AREA_VIOLATION;
        }
        return Status::OK;
    }
    void note(const std::string& s) { log += s + "\n"; }
    void scan_changed() {
        if (!sc) return;
        // keys that disappear need not be returned
        for (auto i = must.begin(); i != must.end();)
            i = v.t[static_cast<std::size_t>(sop.st)].count(*i) ? std::next(i) : must.erase(i);
    }
    void want(Status got, Status w, const std::string& what) {
        std::ostringstream os;
        os << what << " answers " << got;
        note(os.str());
        if (got == w) return;
        os << ", should be " << w;
        throw Bad{os.str()};
    }
    // sessions, begin and calls in every state
    bool ses_step(const std::string& w) {
        if (w == "E") { vt::tick_epoch(); started = true; return true; }
        if (w == "G") { vt::tick_bg(); return true; }
        if (w == "N") {
            if (inside) return true;
            Token t{};
            want(enter(t), Status::OK, "enter");
            for (std::size_t i = 1; i < e.tok.size(); ++i) if (t == e.tok[i]) throw Bad{"enter returned an open session"};
            e.tok[0] = t;
            inside = true;
            reason_known = false;
            return true;
        }
        if (w == "V") {
            want(leave(tk()), inside ? Status::OK : Status::WARN_NOT_IN_A_SESSION, "leave");
            if (open) ended(false);
            inside = false;
            reason_known = false;
            return true;
        }
        if (w[0] == '<') {
            if (!inside) return true;        // outside the contract
            TxP t;
            t.type = w[1];
            std::vector<Storage> wp;
            transaction_options::read_area ra;
            std::vector<int>* to = nullptr;
            for (char c : w.substr(2)) {
                if (c == ':') to = &t.wp;
                else if (c == '+') to = &t.ra_pos;
                else if (c == '-') to = &t.ra_neg;
                else to->push_back(c - 'A');
            }
            for (int i : t.wp) wp.push_back(e.st[static_cast<std::size_t>(i)]);
            for (int i : t.ra_pos) ra.insert_to_positive_list(e.st[static_cast<std::size_t>(i)]);
            for (int i : t.ra_neg) ra.insert_to_negative_list(e.st[static_cast<std::size_t>(i)]);
            auto type = transaction_options::transaction_type::SHORT;
            if (w[1] == 'R') type = transaction_options::transaction_type::READ_ONLY;
            if (w[1] == 'L' || w[1] == 'U') type = transaction_options::transaction_type::LONG;
            if (w[1] == 'W') wp.push_back(e.st[0]);
            if (w[1] == 'U') { for (auto st : e.st) wp.push_back(st); wp.push_back(0x7777777777ULL); }
            if (w[1] == 'R' && !open) for (int i = 0; i < 3; ++i) vt::tick_epoch();
            Status ex = open ? Status::WARN_ALREADY_BEGIN : w[1] == 'W' ? Status::WARN_ILLEGAL_OPERATION : w[1] == 'U' ? Status::WARN_INVALID_ARGS : Status::OK;
            want(tx_begin({tk(), type, wp, ra}), ex, w);
            if (ex == Status::WARN_ALREADY_BEGIN) return true;
            reason_known = ex == Status::OK;
            reason = reason_code::UNKNOWN;
            if (ex != Status::OK) return true;
            cur = t;
            started = false;
            handle = 0;
            open = true;
            disturbed = false;
            v = TxView{};
            v.t = committed;
            sc = false;
            sh = nullptr;                    // an old handle is outside the contract
            return true;
        }
        if (w == "q") {
            if (open && cur.type == 'R') return true;
            ++nextver;
            if (update_sequence(tk(), seqid, nextver, static_cast<SequenceValue>(nextver * 7)) != (open ? Status::OK : Status::WARN_NOT_BEGIN)) throw Bad{"update_sequence answers wrongly"};
            if (open) pendver = nextver;
            sequence_is();
            return true;
        }
        if (w == "h") {
            TxStateHandle hd{};
            want(acquire_tx_state_handle(tk(), hd), !open ? Status::WARN_NOT_BEGIN : handle ? Status::WARN_ALREADY_EXISTS : Status::OK, "acquire_tx_state_handle");
            if (open) {
                if (!handle) held.push_back({hd, 0, false});
                if (handle && hd != handle) throw Bad{"another state handle for the same transaction"};
                handle = hd;
                TxState ts{};
                want(check_tx_state(hd, ts), Status::OK, "check_tx_state");
                auto k = cur.type == 'S' || started ? TxState::StateKind::STARTED : TxState::StateKind::WAITING_START;
                if (ts.state_kind() != k) { std::ostringstream os; os << "state is " << ts.state_kind() << ", should be " << k; throw Bad{os.str()}; }
            }
            return true;
        }
        if (w == "y") { release(); return true; }
        if (w == "t") {
            std::string id;
            want(get_tx_id(tk(), id), open ? Status::OK : Status::WARN_NOT_BEGIN, "get_tx_id");
            if (open && !ids.insert(id).second && lastid != id) throw Bad{"two transactions have the id " + id};
            if (open) lastid = id;
            return true;
        }
        if (w == "r") {
            if (!reason_known) return true;
            auto ri = transaction_result_info(tk());
            if (!ri || ri->get_reason_code() != reason) {
                std::ostringstream os;
                os << "result info says " << (ri ? ri->get_reason_code() : reason_code::UNKNOWN) << ", should be " << reason;
                throw Bad{os.str()};
            }
            return true;
        }
        if (w == "C") {
            int n = 0;
            Status st{};
            bool done = commit(tk(), [&](Status s, reason_code, durability_marker_type) { ++n; st = s; });
            if (!done || n != 1) throw Bad{"commit: " + std::to_string(n) + " callbacks"};
            bool early = open && cur.type == 'L' && !started;
            want(st, !open ? Status::WARN_NOT_BEGIN : early ? Status::WARN_PREMATURE : Status::OK, "commit");
            if (open && !early) { ended(true); reason = reason_code::UNKNOWN; }
            return true;
        }
        if (w == "X") {
            want(abort(tk()), open ? Status::OK : Status::WARN_NOT_BEGIN, "abort");
            if (open) { ended(false); reason = reason_code::USER_ABORT; }
            return true;
        }
        if (w == "n") {
            if (sc) return false;
            std::string k;
            want(next(tk(), sh), open ? Status::WARN_INVALID_HANDLE : Status::WARN_NOT_BEGIN, "next with a scan that is not open");
            want(read_key_from_scan(tk(), sh, k), open ? Status::WARN_INVALID_HANDLE : Status::WARN_NOT_BEGIN, "read_key with a scan that is not open");
            want(read_value_from_scan(tk(), sh, k), open ? Status::WARN_INVALID_HANDLE : Status::WARN_NOT_BEGIN, "read_value with a scan that is not open");
            return true;
        }
        if (w == "k") {
            if (sc) return false;
            want(close_scan(tk(), sh), open ? Status::WARN_INVALID_HANDLE : Status::WARN_NOT_BEGIN, "closing a scan that is not open");
            return true;
        }
        return false;
    }
    // nothing of the sequence is left: the same session slot and another one work on both tables
    void ses_finish() {
        if (inside) ses_step("V");
        while (!held.empty()) { states(); release(); }
        ses_step("N");
        // exactly the configured number of sessions, all different
        std::set<Token> all(e.tok.begin(), e.tok.end());
        for (;;) {
            Token t{};
            if (Status s = enter(t); s != Status::OK) { want(s, Status::ERR_SESSION_LIMIT, "enter"); break; }
            if (!all.insert(t).second) throw Bad{"enter returned an open session"};
        }
        if (all.size() != KVS_MAX_PARALLEL_THREADS) throw Bad{std::to_string(all.size()) + " sessions can be open"};
        for (auto t : all) if (std::find(e.tok.begin(), e.tok.end(), t) == e.tok.end()) want(leave(t), Status::OK, "leave");
        for (int round = 0; round < 2; ++round)
            for (int s = 0; s < 2; ++s) {
                Token t = e.tok[static_cast<std::size_t>(s)];
                const char* nm = s ? "another session's" : "the session's";
                want(tx_begin({t}), Status::OK, std::string(nm) + " begin afterwards");
                for (int i = 0; i < it.p.nst; ++i) {
                    auto st = e.st[static_cast<std::size_t>(i)];
                    std::string val;
                    auto& c = committed[static_cast<std::size_t>(i)];
                    want(search_key(t, st, "a", val), c.count("a") ? Status::OK : Status::WARN_NOT_FOUND, std::string(nm) + " read afterwards");
                    if (c.count("a") && c["a"] != val) throw Bad{"read afterwards gives " + val};
                    if (c.count("a")) want(update(t, st, "a", "post"), Status::OK, std::string(nm) + " update afterwards");
                    else want(insert(t, st, "a", "post"), Status::OK, std::string(nm) + " insert afterwards");
                    c["a"] = "post";
                }
                want(commit(t), Status::OK, std::string(nm) + " commit afterwards");
                if (sequences()) sequence_is();
            }
    }
    std::set<std::string> ids;
    std::string lastid;
    TxStateHandle handle{0};

    void step(const std::string& w) {
        if (it.ses) {
            bool done = ses_step(w);
            states();
            if (done) return;
        }
        if (w == "E") { vt::tick_epoch(); return; }
        if (w == "G") { vt::tick_bg(); if (open) disturbed = true; return; }
        if (w == "C") { if (!open) begin(); end(true); note("C"); return; }
        if (w == "X") { if (!open) begin(); end(false); note("X"); return; }
        if (w == "R") { read_only(); return; }
        if (!open && !it.ses) begin();
        if (w == "n") { scan_step(); return; }
        if (w == "k") {
            if (!sc) return;
            Status s = close_scan(tk(), sh);
            if (s != Status::OK) { std::ostringstream os; os << "close_scan answers " << s; throw Bad{os.str()}; }
            sc = false;
            sh = nullptr;
            return;
        }
        if (w[0] == 'b') {
            for (int i = 0; i < 110; ++i) {
                Op o;
                o.k = 'p';
                o.st = w[1] - 'A';
                char b[8];
                std::snprintf(b, sizeof b, "k%03d", i);
                o.key = b;
                o.val = "v" + std::to_string(opno);
                o.text = w;
                one(o);
                if (!open) return;
            }
            ++opno;
            return;
        }
        Op o = parse_op(w, 0, opno++);
        if (it.odd) {
            make_odd(o.key);
            make_odd(o.rkey);
            o.val = odd_value(opno);
        }
        one(o);
    }
    void one(const Op& o) {
        OpRes r;
        Storage st = o.st < it.p.nst ? e.st[static_cast<std::size_t>(o.st)] : 0x7777777777ULL;
        Status want = refusal(o);
        if (o.k == 'o') {
            if (sc && want == Status::OK) { close_scan(tk(), sh); sc = false; }
            r.ran = true;
            ScanHandle old = sh;
            r.st = open_scan(tk(), st, o.key, o.le, o.rkey, o.re, sh, o.max, o.rev);
            if (want != Status::OK) { expect(o, r, want); sh = old; return; }
            must.clear();
            for (auto& kv : v.t[static_cast<std::size_t>(o.st)]) if (in_range(o, kv.first)) must.insert(kv.first);
            if (r.st == Status::WARN_NOT_FOUND) {
                if (!must.empty() && !o.max) throw Bad{o.text + " answers NOT_FOUND, but the range has " + std::to_string(must.size()) + " entries"};
                return;
            }
            if (r.st != Status::OK) { failed(o, r); return; }
            sc = true;
            sop = o;
            first = true;
            exhausted = false;
            last.clear();
            return;
        }
        do_op(tk(), st, o, r);
        r.at = 1;
        std::ostringstream os;
        os << o.text << " -> " << r.st;
        for (auto& x : r.rows) os << " " << shown(x.first) << "=" << shown(x.second);
        note(os.str());
        if (want != Status::OK) { expect(o, r, want); return; }
        if (r.gone && !disturbed) throw Bad{o.text + " stopped at an entry that is not there"};
        if (no_observation(r.st) || r.partial) { failed(o, r); return; }
        std::string why;
        if (!v.step(o, r, it.p.loose_limit, &why)) throw Bad{why.size() > 600 ? why.substr(0, 600) : why};
        scan_changed();
    }
    void expect(const Op& o, const OpRes& r, Status want) {
        if (r.st == want) {
            if (is_err(want)) { ended(false); reason = reason_code::CC_LTX_READ_AREA_VIOLATION; }
            return;
        }
        if (o.k == 's' && want == Status::WARN_STORAGE_NOT_FOUND && r.st == Status::WARN_STORAGE_NOT_FOUND) return;
        std::ostringstream os;
        os << o.text << " answers " << r.st << ", should be " << want;
        throw Bad{os.str()};
    }
    void failed(const Op& o, const OpRes& r) {
        if (disturbed) {
            if (is_err(r.st)) { open = false; sc = false; }
            return;
        }
        std::ostringstream os;
        os << o.text << " of the only transaction answers " << r.st << (r.partial ? " (entries refused)" : "");
        throw Bad{os.str()};
    }
    // one step of the open scan: read key and value at the cursor, move on
    void scan_step() {
        if (!sc) return;
        auto& t = v.t[static_cast<std::size_t>(sop.st)];
        std::string k, val;
        std::ostringstream os;
        if (!first) {
            Status s = next(tk(), sh);
            if (s == Status::WARN_SCAN_LIMIT) {
                done();
                // and it stays there
                if (next(tk(), sh) != Status::WARN_SCAN_LIMIT) throw Bad{"next after the end of a scan"};
                note("n -> end");
                return;
            }
            if (s != Status::OK) {
                if (disturbed) { if (is_err(s)) { open = false; sc = false; } return; }
                os << "next answers " << s;
                throw Bad{os.str()};
            }
        }
        bool moved = !first;
        if (exhausted) throw Bad{"a scan went on after its end"};
        first = false;
        Status s1 = read_key_from_scan(tk(), sh, k);
        Status s2 = s1 == Status::OK ? read_value_from_scan(tk(), sh, val) : s1;
        os << "n -> " << s2 << " " << shown(k) << "=" << shown(val);
        note(os.str());
        if (s1 == Status::WARN_SCAN_LIMIT || s2 == Status::WARN_SCAN_LIMIT) { done(); return; }
        if (s2 == Status::WARN_NOT_FOUND) {              // deleted since
            if (moved && !disturbed) throw Bad{"a scan stopped at an entry that is not there"};
            return;
        }
        if (s2 != Status::OK) {
            if (disturbed) { if (is_err(s2)) { open = false; sc = false; } return; }
            throw Bad{"reading from a scan: " + os.str()};
        }
        if (!in_range(sop, k)) throw Bad{"scan returned a key outside its range: " + os.str()};
        if (!last.empty() && (sop.rev ? k >= last.substr(1) : k <= last.substr(1))) throw Bad{"scan returned keys out of order: " + os.str()};
        last = "." + k;
        auto i = t.find(k);
        if (i == t.end()) throw Bad{"scan returned a key that is not visible: " + os.str()};
        if (i->second != val) throw Bad{"scan returned " + shown(val) + " for " + shown(k) + ", visible is " + shown(i->second)};
        for (auto& m : must) if (sop.rev ? m > k : m < k) throw Bad{"scan passed over " + shown(m)};
        must.erase(k);
        if (reread) {
            std::string k2, v2;
            if (read_key_from_scan(tk(), sh, k2) != Status::OK || read_value_from_scan(tk(), sh, v2) != Status::OK || k2 != k || v2 != val)
                throw Bad{"reading the same scan position again gives something else"};
        }
    }
    void done() {
        exhausted = true;
        if (!must.empty() && !sop.max) throw Bad{"scan ended without returning " + shown(*must.begin())};
    }
    void read_only() {
        Token t = e.tok[1];
        for (int i = 0; i < 4; ++i) vt::tick_epoch();
        if (open) disturbed = disturbed || false;
        if (tx_begin({t, transaction_options::transaction_type::READ_ONLY}) != Status::OK) throw Bad{"read-only transaction refused"};
        vt::tick_epoch();
        for (int i = 0; i < it.p.nst; ++i) {
            Op o;
            o.k = 's';
            o.st = i;
            o.text = "read-only scan";
            OpRes r;
            do_op(t, e.st[static_cast<std::size_t>(i)], o, r);
            std::vector<std::pair<std::string, std::string>> want(committed[static_cast<std::size_t>(i)].begin(), committed[static_cast<std::size_t>(i)].end());
            if (r.st != Status::OK || r.partial || r.rows != want) {
                std::ostringstream os;
                os << "a read-only transaction begun later answers " << r.st;
                for (auto& x : r.rows) os << " " << shown(x.first) << "=" << shown(x.second);
                os << ", committed is " << dump(committed).substr(0, 300);
                throw Bad{os.str()};
            }
        }
        if (commit(t) != Status::OK) throw Bad{"read-only commit fails"};
        note("R ok");
    }
    void finish() {
        if (it.ses) ses_finish();
        else if (open) end(true);
        Prog q = it.p;
        q.keys.assign(static_cast<std::size_t>(q.nst), {});
        for (std::size_t i = 0; i < q.keys.size(); ++i) for (auto& kv : committed[i]) q.keys[i].insert(kv.first);
        Tables f = read_back(e, q);
        if (f != committed) throw Bad{"contents " + dump(f).substr(0, 300) + " should be " + dump(committed).substr(0, 300)};
        if (LOBS) {
            std::uint64_t n = 0;
            std::string why;
            bool good = lobs_good(f, &why, &n);
            par::S->refs += n;
            if (!good) throw Bad{why};
        }
    }
};

static bool run_one(const Item& it, Env& e, const std::vector<std::string>& seq, const std::string& tag, bool show, std::uint64_t* com) {
    prepare(e, it.p, tag);
    Runner r{it, e};
    r.committed = it.p.init;
    if (it.ses && !Runner::seqid && create_sequence(&Runner::seqid) != Status::OK) { par::violation("contract", "create_sequence refused"); return false; }
    try {
        for (auto& w : it.pre) r.step(w);
        for (auto& w : seq) r.step(w);
        for (auto& w : it.post) r.step(w);
        r.finish();
    } catch (Bad& b) {
        par::violation("contract", b.why + "\n" + r.log);
        if (show) std::cout << r.log << b.why << "\n";
        return false;
    }
    if (show) std::cout << r.log << "contents " << dump(r.committed).substr(0, 400) << "\n";
    if (com) *com += r.committedn;
    auto sg = par::hash(r.log + dump(r.committed), par::hash(it.line));
    if (par::sig_add(sg)) {
        ++par::S->distinct;
        if (r.committedn) ++par::S->nontrivial;
    }
    return true;
}

int main(int argc, char** argv) {
    auto a = par::parse_args(argc, argv);
    quiet_logging();
    par::setup();
    LOBS = a.mode.find("lobs") != std::string::npos;
    if (LOBS) lobs_on();
    yakushima::impl::set_capacity(static_cast<std::size_t>(a.cap));
    EngineCfg cfg;
    cfg.iscan = a.iscan;
    cfg.workers = a.bgworkers;
    if (start(cfg) != Status::OK) { std::fprintf(stderr, "engine does not start\n"); return 3; }
    for (int i = 0; i < 3; ++i) { vt::tick_epoch(); vt::tick_bg(); }
    auto with_sessions = [](Env& e) {
        for (int i = 0; i < 3; ++i) { Token t{}; enter(t); e.tok.push_back(t); }
    };
    if (!a.replay.empty()) {
        Item it = parse_item(a.replay);
        Env e;
        with_sessions(e);
        par::current(it.line, a.rest.at(0));
        bool ok = run_one(it, e, words(a.rest.at(0), ' '), "r", true, nullptr);
        std::cout << (ok ? "holds\n" : "violated\n");
        par::leave(ok ? 0 : 1);
    }
    std::vector<Item> items;
    {
        std::ifstream f(a.suite);
        std::string l;
        while (std::getline(f, l)) if (!l.empty() && l[0] != '#') items.push_back(parse_item(l));
    }
    constexpr std::uint64_t B = 250;
    std::vector<std::pair<std::uint32_t, std::uint64_t>> jobs;
    std::uint64_t all = 0;
    for (std::size_t i = 0; i < items.size(); ++i) {
        all += items[i].total;
        for (std::uint64_t k = 0; k < items[i].total; k += B) jobs.emplace_back(static_cast<std::uint32_t>(i), k);
    }
    std::fprintf(stderr, "%zu alphabets, %lu sequences\n", items.size(), all);
    bool done = par::run(jobs.size(), a.workers, a.deadline, [&](std::uint64_t j) {
        auto& it = items[jobs[j].first];
        Env e;
        with_sessions(e);
        std::uint64_t ex = 0, tr = 0, stt = 0, com = 0;
        std::vector<std::string> prev;
        for (std::uint64_t k = jobs[j].second; k < std::min(it.total, jobs[j].second + B); ++k) {
            std::vector<std::string> seq(static_cast<std::size_t>(it.n));
            std::uint64_t x = k;
            for (int i = it.n; i-- > 0;) { seq[static_cast<std::size_t>(i)] = it.tok[x % it.tok.size()]; x /= it.tok.size(); }
            std::string txt;
            for (auto& w : seq) txt += w + " ";
            par::current(it.line, txt);
            std::size_t cp = 0;
            while (cp < prev.size() && prev[cp] == seq[cp]) ++cp;
            stt += seq.size() - cp;
            tr += seq.size() + it.pre.size() + it.post.size();
            ++ex;
            if (!run_one(it, e, seq, "q" + std::to_string(k), false, &com)) break;
            prev = seq;
            if (j % 211 == 0 && k == jobs[j].second) par::sample(it.line + " @ " + txt);
        }
        par::S->executions += ex;
        par::S->transitions += tr;
        par::S->states += stt;
        par::S->committed += com;
    });
    par::leave(par::finish(a, done && par::S->stop == 0, "sequences", LOBS ? "\"extra\":{\"log_entries_judged\":" + std::to_string(par::S->refs.load()) + "}" : ""));
}
