// Simulator core: choices, scheduler, clock, faults, allocation ledger, event hash.
// Everything nondeterministic goes through this file.
#pragma once
#include <semaphore.h>
#include <clingo.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

enum Stream { S_GEN = 0, S_CFG, S_SCHED, S_SEARCH, S_FAULT, S_SEARCH2, S_SEARCH3, N_STREAMS };
static constexpr size_t STREAM_CAP = 1 << 17;

// named counters written by a run (shared with the worker)
enum Counter {
#define CNT(x) x,
#include "counters.def"
#undef CNT
    N_COUNTERS
};
extern char const *const counter_names[];

enum Outcome { O_NONE = 0, O_OK = 1, O_VIOLATION = 2, O_BUDGET = 3, O_INTERNAL = 4 };

static constexpr uint32_t EV_CAP = 1 << 20;
static constexpr int COV_MAX = 1 << 15;

// memory shared between the worker and the forked run
struct Shared {
    // input
    uint64_t seed;
    bool replaying;
    bool verbose;
    uint32_t in_len[N_STREAMS];
    // input (replay) and output (record)
    uint32_t len[N_STREAMS]; // position
    uint32_t top[N_STREAMS]; // choices made (larger than the position after rewinding)
    uint32_t draws[N_STREAMS][STREAM_CAP];
    // output
    int outcome;
    char cls[128];
    char msg[8192];
    uint64_t hash;
    uint64_t sched_hash;
    uint64_t sim_ns;
    uint64_t steps;
    uint64_t cnt[N_COUNTERS];
    char sample[8192];
    uint32_t cov_n;
    uint8_t cov[COV_MAX];
    // transcripts for isolation checks
    uint32_t tr_len[8];
    uint64_t tr[8][1 << 18];
    char note[4096];
    // event log (diagnosis of runs that do not repeat)
    uint32_t ev_len;
    uint64_t ev[EV_CAP];
};
extern Shared *sh;

// violation / end of run -------------------------------------------------
[[noreturn]] void violation(char const *cls, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish(int outcome, char const *cls, std::string const &msg);
void log(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK_INTERNAL(c)                                                                                              \
    do {                                                                                                               \
        if (!(c)) internal_error("%s:%d: %s", __FILE__, __LINE__, #c);                                                 \
    } while (0)

// choices ------------------------------------------------------------------
uint32_t draw(int stream, uint32_t n);                 // uniform in [0,n); 0 is the simplest
std::vector<uint32_t> draw_mark();
void draw_rewind(std::vector<uint32_t> const &mark); // the choices from here on are made once more
inline bool chance(int stream, uint32_t den) {         // true with probability 1/den
    return den <= 1 ? true : draw(stream, den) == den - 1;
}
inline bool chance(int stream, uint32_t num, uint32_t den) { return draw(stream, den) >= den - num; }
void event(uint64_t x);
void count(Counter c, uint64_t n = 1);

// threads --------------------------------------------------------------------
struct SimThread {
    sem_t sem{};
    int id{0};      // dense id of the simulated OS thread
    int in_repo{0}; // > 0 while code of the repository runs on this thread
    int locks{0};   // mutexes or static-initialisation guards held
    int solver_thread{-1};
    int cb_kind{0};             // callback kind currently executed
    uint64_t cb_blocks{0};      // basic blocks in the current callback
    bool done{false};
    void *wait_mutex{nullptr};
    std::function<bool()> wait_cond;
    void *impl{nullptr};
};
extern SimThread *cur;                                   // thread holding the baton
void run_threads(std::vector<std::function<void()>> fs); // runs all to completion under the scheduler
void yield_point();                                      // may switch
void wait_until(std::function<bool()> cond);             // gives the baton away until cond holds
bool threads_active();
int num_sim_threads();

// entering and leaving code of the repository ------------------------------------
enum CbKind { CB_NONE, CB_INIT, CB_PROPAGATE, CB_UNDO, CB_CHECK, CB_DECIDE, CB_CLIENT, CB_EVENT, CB_AST };
struct InRepo {
    InRepo(int kind);
    ~InRepo();
    int saved, kind;
    uint64_t blocks;
};
struct OutRepo {
    OutRepo() : t{cur}, saved{cur->in_repo} { cur->in_repo = 0; }
    ~OutRepo() { t->in_repo = saved; }
    SimThread *t;
    int saved;
};

// api calls from the repository --------------------------------------------------
extern char const *const fn_names[];
extern int const fn_count;
struct Api {
    Api(int fn, bool may_fail);
    ~Api();
    [[nodiscard]] bool fail() const { return failed; }
    SimThread *t;
    int saved;
    bool failed{false};
};
void tr(uint64_t x); // transcript of the current solver thread
void tr_lits(clingo_literal_t const *l, size_t n);

// playback of a single solver thread
struct Playback {
    bool active{false};
    bool record{false};
    int thread{-1};
    size_t pos{0};
};
extern Playback pb;
// records x as output of the repository (must match in playback)
void tr_out(uint64_t x);
// records a response given to the repository (taken from the record in playback)
uint64_t tr_in(uint64_t x);

// faults -------------------------------------------------------------------------
struct Faults {
    // countdowns in number of events while armed (0: off)
    uint64_t alloc{0};
    uint64_t api{0};
    bool armed{false};
    int phase_mask{0}; // callback kinds in which faults fire (0: all)
    int repeat{0};     // further failures right after the first
    // results
    uint64_t allocs_seen{0}, apis_seen{0};
    int fired_alloc{0}, fired_api{0};
    char where[128]{0};
    int code{0}; // error code of the last failed call
    bool fired() const { return fired_alloc + fired_api > 0; }
};
extern Faults faults;

// What the code must not depend on: the contents and addresses of fresh memory, the time, and random numbers.
struct Env {
    bool active{false};
    int fill{0};             // fresh memory: 0 as it is, 1 zeros, 2 ones, 3 a byte, 4 random
    bool scramble{false};    // addresses in a different order
    uint64_t clock{0};       // time that passes in addition
    uint64_t epoch{0};       // wall clock
    uint64_t salt{0};        // hash of symbols (clingo's depends on addresses)
    uint64_t rng{1};
    uint64_t next();
};
extern Env env;
extern bool coarse_threads; // threads are switched at calls only (not at basic blocks)
extern bool trace_values;   // arguments of calls become events

// clock --------------------------------------------------------------------------
extern uint64_t sim_now;      // ns
void clock_config(uint32_t tick_ns, bool jumps);
extern uint64_t clock_reads;

// ledger of memory allocated by the repository --------------------------------------
struct Ledger {
    uint64_t live_blocks{0}, live_bytes{0};
    uint64_t total{0};
};
extern Ledger ledger;
extern long ast_balance; // references held by the repository
std::string ledger_dump(uint64_t since_seq, size_t max);
extern uint64_t ledger_seq;

// races
void race_reset(bool enable);

// budgets
extern uint64_t blocks_total;
extern uint64_t block_limit_cb; // per callback
extern uint64_t block_limit_total;
extern uint64_t cb_blocks_last; // of the last call

void core_init_child();
void core_cov_flush();
