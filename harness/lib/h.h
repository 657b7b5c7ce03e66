// Common harness library: transaction programs, execution against the engine's public API,
// the serial reference model, the serializability oracle.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "../../rt/rt.h"
#include "limestone/api/limestone_standin.h"
#include "shirakami/interface.h"
#include "yakushima/include/kvs.h"

namespace h {
using shirakami::Status;
using shirakami::Storage;
using shirakami::Token;
using shirakami::scan_endpoint;

// ---- programs -----------------------------------------------------------------
struct Op {
    char k{};                 // g search, e exist, i insert, u update, p upsert, d delete, s scan,
                              // o open scan, n step of it (the answer is everything read from it so far)
    int st{};
    std::string key;          // point key or left end
    std::string rkey;
    scan_endpoint le{scan_endpoint::INF}, re{scan_endpoint::INF};
    std::size_t max{0};
    bool rev{false};
    bool glue{false};         // executed in the same history step as the previous operation ('&' prefix)
    std::string val;
    std::string text;
};
struct TxP {
    char type{'S'};           // S, L, R
    std::vector<int> wp;
    std::vector<int> ra_pos, ra_neg;
    std::vector<Op> ops;
    bool whole{false};        // '!' prefix: all calls (after the begin of a long or read-only one) in one history step
    bool user_abort{false};
};
using Tables = std::vector<std::map<std::string, std::string>>;
struct Prog {
    std::vector<TxP> txs;
    int nst{1};
    Tables init;
    std::vector<std::pair<int, std::string>> tomb;   // deleted shortly before the program starts
    std::string text;         // init + '||' + txs
    bool loose_limit{false};
    std::vector<std::set<std::string>> keys;         // every key named, per table
};
// "Aa Ab ~Ac || S gAa uAa | L:A gAb pAa | R sA"
Prog parse(const std::string& s);
Op parse_op(std::string w, int tx, int idx);
std::string value_of(int tx, int op);

// large objects: every write is given some, determined by its value
void lobs_on();
std::vector<std::uint64_t> lobs_of(const std::string& val);
// flushes the logs; whether every entry carried exactly the objects given with
// its value and every value in the tables was handed over; counts the entries
bool lobs_good(const Tables& fin, std::string* why, std::uint64_t* entries);

struct OpRes {
    bool ran{false};
    Status st{Status::OK};
    bool ended{false};        // a stepped scan reached its end
    bool partial{false};      // a scan some of whose entries were refused because of concurrency
    bool gone{false};         // a scan stopped at an entry next() had moved to and that was not there when read at once
    std::vector<std::pair<std::string, std::string>> rows; // scan rows; search: one row
    std::uint32_t at{0};      // when the answer was known
};
enum Outcome : std::uint8_t { NOT_BEGUN, RUNNING, WAITING, COMMITTED, ABORTED };
struct TxRes {
    Outcome out{NOT_BEGUN};
    bool wp_failed{false};    // given up because of a table declared by a long transaction
    std::uint32_t ts{0};      // when its start epoch came (0: not known)
    std::vector<OpRes> r;
    std::uint32_t tb{0}, te{0};
    int callbacks{0};
    bool commit_called{false};
    std::uint32_t tc{0};      // when commit was called
    bool waited{false};       // the commit was decided later
    bool rejected{false};     // some call other than commit ended the transaction
    Status cbst{Status::OK};
    Status commit_st{Status::OK};
    std::uint64_t marker{0};
    std::string bad;          // inconsistency in what the commit reported
    shirakami::TxStateHandle sth{0};   // state handle, when states are watched
    bool in_call{false};      // some call of the transaction is running
    std::string states;                // states seen, one letter each
    shirakami::ScanHandle sh{};   // the open scan
    bool sc{false}, sc_first{false}, sc_partial{false}, sc_ended{false};
    std::vector<std::pair<std::string, std::string>> sc_rows;
};

bool is_err(Status s);        // the transaction has been aborted by the engine
bool no_observation(Status s);

// ---- reference model ------------------------------------------------------------
bool in_range(const Op& o, const std::string& k);
// what one transaction sees: contents plus the kinds of its own pending writes
struct TxView {
    Tables t;
    std::map<std::pair<int, std::string>, char> own;
    std::set<std::pair<int, std::string>> blind;     // upserts of keys that were absent
    bool step(const Op& o, const OpRes& r, bool loose_limit, std::string* why = nullptr);
};
struct Model {
    Tables t;
    bool loose_limit{false};  // a limited scan may return fewer entries
    // replays a committed transaction; false + why on the first disagreeing answer
    bool replay(const TxP& p, const std::vector<OpRes>& r, std::string* why = nullptr);
};
std::string dump(const Tables& t);

struct OracleOut {
    bool ok{false};
    std::vector<int> order;
    std::string why;
};
// exists a serial order of the committed transactions explaining all answers and ending in `fin`
// rt: enforce real-time order between short transactions
OracleOut serializable(const Prog& p, const std::vector<TxRes>& r, const Tables* fin, bool rt);
std::string describe(const Prog& p, const std::vector<TxRes>& r, const Tables* fin);
std::string signature(const Prog& p, const std::vector<TxRes>& r, const Tables* fin, bool rt);

// ---- execution -------------------------------------------------------------------
struct Env {
    std::vector<Storage> st;
    std::vector<Token> tok;
    std::uint32_t clock{0};
    bool watch{false};        // acquire state handles and look at them after every step
    std::vector<TxRes>* all{nullptr};
    struct Crash* crash{nullptr};
};
struct EngineCfg {
    bool iscan{false};
    int workers{1};
    bool restore{false};
    int restore_threads{0};
};
// starts the engine on an empty (or given) medium
Status start(const EngineCfg& c = {}, limestone::api::medium m = {});
// creates fresh tables, loads the initial contents
void prepare(Env& e, const Prog& p, const std::string& tag);
void begin_tx(Env& e, const Prog& p, int i, TxRes& r);
void run_op(Env& e, const Prog& p, int i, std::size_t o, TxRes& r);
void end_tx(Env& e, const Prog& p, int i, TxRes& r);
void do_op(Token tk, Storage st, const Op& op, OpRes& r);
void scan_op(Token tk, Storage st, const Op& op, OpRes& r, TxRes& x);   // open scans, kept in x
Tables read_back(Env& e, const Prog& p);
// lets background work decide waiting commits; false when some are never decided
bool resolve(Env& e, std::vector<TxRes>& r, int max_rounds = 12);

// one history: actions are transaction numbers, 'E' (epoch) or 'G' (other background work)
struct History {
    std::vector<std::uint8_t> act;
};
constexpr std::uint8_t ACT_E = 100, ACT_G = 101;
std::string text(const History& h);
History parse_history(const std::string& s);
struct ExecOut {
    std::vector<TxRes> r;
    Tables fin;
    bool stuck{false};
    std::string crash;        // what was wrong with a crash or a durability report
};
// number of steps transaction i has in a history (begin is merged with the first operation for short ones)
int steps_of(const TxP& p);
// lazy: the epoch passes only when a long / read-only transaction is about to run its first
// operation, so several of them may start in one epoch
ExecOut run_history(Env& e, const Prog& p, const History& h, bool lazy = false);
// every value any transaction (committed or not) has read was written by a transaction whose commit
// had been requested by then and succeeded, by the reader itself, or was there initially
// a transaction that overlaps no other one is neither refused nor aborted; a short write is refused
// because of a long transaction only while one that declared the table exists
bool undisturbed(const Prog& p, const std::vector<TxRes>& r, std::string* why);
// with nothing but short transactions beside it, a long transaction neither aborts nor waits
bool ltx_priority(const Prog& p, const std::vector<TxRes>& r, std::string* why);
// no short transaction commits, while a long one runs, having read a table that one declared; a long
// transaction writes only to declared tables and reads only in its read area
bool ltx_areas(const Prog& p, const std::vector<TxRes>& r, std::string* why);
// read-only transactions get all their answers and commit
bool rtx_unfailing(const Prog& p, const std::vector<TxRes>& r, std::string* why);
bool clean_reads(const Prog& p, const std::vector<TxRes>& r, std::string* why);

// looks at the state handles of all transactions; an impossible or backward state is noted in `bad`
void watch_states(Env& e, const Prog& p, std::vector<TxRes>& r);
void release_states(std::vector<TxRes>& r);

// ---- crashes -------------------------------------------------------------------------
// Records what a crash would leave at every event of the log device and at every durability report;
// afterwards every recorded point must be explained by a set of the transactions whose commit had
// been requested, containing those reported durable.
struct Crash {
    struct Pt {
        std::string ev;
        Tables got;
        std::uint32_t req{0}, dur{0};
        std::uint64_t dm{0};
    };
    std::vector<Pt> pts;
    std::uint64_t seen{0};     // events looked at
    std::string bad;
    void before();             // before the tables are created
    void attach(Env& e, const Prog& p, std::vector<TxRes>& r);
    void point(const char* ev);
    // lets everything become durable and looks once more
    void settle();
    void detach();
    bool judge(std::string* why);
    std::string sig() const;

private:
    Tables kept() const;
    Env* e_{nullptr};
    const Prog* p_{nullptr};
    std::vector<TxRes>* r_{nullptr};
    std::size_t base_{0};
};

// ---- logging -----------------------------------------------------------------------
void quiet_logging();
} // namespace h
