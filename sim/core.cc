// Simulator core. See core.hh.
#include "core.hh"
#include <sys/time.h>
#include <ctime>
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

Shared *sh = nullptr;
char const *const counter_names[] = {
#define CNT(x) #x,
#include "counters.def"
#undef CNT
};

static SimThread main_thread;
SimThread *cur = &main_thread;
static std::vector<SimThread *> *threads = nullptr; // all threads of this run
Faults faults;
Ledger ledger;
uint64_t ledger_seq = 0;
long ast_balance = 0;
Playback pb;
uint64_t sim_now = 1000000000ull;
uint64_t clock_reads = 0;
static uint32_t tick = 100;
static bool jumps = false;
uint64_t blocks_total = 0;
uint64_t block_limit_cb = 20000000;
uint64_t block_limit_total = 400000000;
uint64_t cb_blocks_last = 0;
static uint64_t countdown = 0;
static int sched_scale = 0;
static int alive = 1;

// ---------------------------------------------------------------- results
void finish(int outcome, char const *cls, std::string const &msg) {
    cur->in_repo = 0;
    if (pb.active) { // playback runs in its own process and reports through its exit code and note
        snprintf(sh->note, sizeof sh->note, "%s: %s", cls, msg.c_str());
        core_cov_flush();
        _exit(outcome == O_OK ? 0 : outcome == O_VIOLATION ? 42 : 43);
    }
    sh->outcome = outcome;
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    sh->sim_ns = sim_now - 1000000000ull;
    sh->steps = blocks_total;
    core_cov_flush();
    fflush(stdout);
    _exit(0);
}
void violation(char const *cls, char const *fmt, ...) {
    char buf[6000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    finish(O_VIOLATION, cls, buf);
}
void internal_error(char const *fmt, ...) {
    char buf[6000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    finish(O_INTERNAL, "internal", buf);
}
void log(char const *fmt, ...) {
    if (!sh->verbose) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stdout, fmt, ap);
    va_end(ap);
    fputc('\n', stdout);
    fflush(stdout);
}

// ---------------------------------------------------------------- choices
static uint64_t rng[N_STREAMS];
static uint64_t next64(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint32_t draw(int s, uint32_t n) {
    if (n <= 1) {
        return 0;
    }
    CHECK_INTERNAL(!pb.active);
    auto pos = sh->len[s];
    if (pos >= STREAM_CAP) {
        finish(O_BUDGET, "budget", "choice stream full");
    }
    uint32_t v = 0;
    if (pos < sh->top[s]) {
        v = sh->draws[s][pos] % n;
    } else {
        if (sh->replaying) {
            v = pos < sh->in_len[s] ? sh->draws[s][pos] % n : 0;
        } else {
            v = static_cast<uint32_t>((next64(rng[s]) >> 11) % n);
        }
        sh->draws[s][pos] = v;
        sh->top[s] = pos + 1;
    }
    sh->len[s] = pos + 1;
    return v;
}
std::vector<uint32_t> draw_mark() { return {sh->len, sh->len + N_STREAMS}; }
void draw_rewind(std::vector<uint32_t> const &mark) {
    for (int i = 0; i < N_STREAMS; ++i) {
        sh->len[i] = mark[static_cast<size_t>(i)];
    }
}
void event(uint64_t x) {
    uint64_t h = sh->hash;
    h ^= x + 0x9e3779b97f4a7c15ull + (static_cast<uint64_t>(cur->id) << 56);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    sh->hash = h;
    if (sh->ev_len < EV_CAP) {
        sh->ev[sh->ev_len++] = x;
    }
}
void count(Counter c, uint64_t n) { sh->cnt[c] += n; }

// ---------------------------------------------------------------- coverage
static uint32_t cov_n = 0;
static uint8_t cov_local[COV_MAX];
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start != 0) {
        return;
    }
    for (auto *x = start; x < stop; ++x) {
        *x = ++cov_n;
    }
}
void core_cov_flush() {
    if (sh == nullptr) {
        return;
    }
    sh->cov_n = cov_n;
    for (uint32_t i = 0; i < COV_MAX; ++i) {
        if (cov_local[i] != 0) {
            sh->cov[i] = 1;
        }
    }
}
// Set when a thread has handed over for the last time. The destructors of thread-local objects (of libclingo) still run
// afterwards, next to the simulation, and use instrumented instantiations of templates in this binary.
static __thread bool thread_ended = false;
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (thread_ended || cur->in_repo == 0) {
        return;
    }
    if (*g < COV_MAX) {
        cov_local[*g] = 1;
    }
    ++blocks_total;
    if (++cur->cb_blocks > block_limit_cb) {
        violation("hang", "a single call into the library executed more than %lu basic blocks (call kind %d)",
                  static_cast<unsigned long>(block_limit_cb), cur->cb_kind);
    }
    if (blocks_total > block_limit_total) {
        finish(O_BUDGET, "budget", "block budget of the run exhausted");
    }
    if (alive > 1 && !coarse_threads) {
        yield_point();
    }
}

// ---------------------------------------------------------------- scheduler
bool threads_active() { return alive > 1; }
int num_sim_threads() { return threads != nullptr ? static_cast<int>(threads->size()) : 1; }
static void new_countdown() {
    // 0: no preemption until the thread blocks or ends
    static uint32_t const scale[4] = {4, 40, 400, 4000};
    if (chance(S_SCHED, 7, 8)) {
        countdown = 1 + draw(S_SCHED, scale[sched_scale]);
    } else {
        countdown = 0;
    }
}
static bool runnable(SimThread *t) {
    if (t->done) {
        return false;
    }
    return !t->wait_cond || t->wait_cond();
}
static void switch_to(SimThread *t) {
    SimThread *me = cur;
    if (t == me) {
        return;
    }
    count(thread_switches);
    sh->sched_hash = (sh->sched_hash ^ static_cast<uint64_t>(t->id + 1) ^ (blocks_total << 4)) * 0x9e3779b97f4a7c15ull;
    event(0x5157000 + static_cast<uint64_t>(t->id));
    auto &mine = me->sem;
    bool ended = me->done;
    cur = t;
    sem_post(&t->sem);
    if (!ended) {
        while (sem_wait(&mine) != 0) {
        }
        cur = me;
    }
}
static void pick_and_switch(bool must) {
    std::vector<SimThread *> c;
    for (auto *t : *threads) {
        if (t != cur && runnable(t)) {
            c.push_back(t);
        }
    }
    if (c.empty()) {
        if (must) {
            violation("deadlock", "all simulated threads are blocked");
        }
        return;
    }
    switch_to(c[draw(S_SCHED, static_cast<uint32_t>(c.size()))]);
}
void yield_point() {
    if (alive < 2 || countdown == 0 || pb.active) {
        return;
    }
    if (--countdown == 0) {
        int saved = cur->in_repo;
        cur->in_repo = 0;
        new_countdown();
        pick_and_switch(false);
        cur->in_repo = saved;
    }
}
void wait_until(std::function<bool()> cond) {
    if (cond()) {
        return;
    }
    int saved = cur->in_repo;
    cur->in_repo = 0;
    cur->wait_cond = cond;
    while (!cond()) {
        pick_and_switch(true);
    }
    cur->wait_cond = nullptr;
    cur->in_repo = saved;
}
struct Start {
    SimThread *t;
    std::function<void()> f;
};
static void *thread_main(void *p) {
    auto *s = static_cast<Start *>(p);
    auto *t = s->t;
    while (sem_wait(&t->sem) != 0) {
    }
    cur = t;
    s->f();
    delete s;
    t->done = true;
    --alive;
    // hand over; somebody must be runnable (at least the spawner)
    SimThread *next = nullptr;
    {
        std::vector<SimThread *> c;
        for (auto *o : *threads) {
            if (o != t && runnable(o)) {
                c.push_back(o);
            }
        }
        if (c.empty()) {
            violation("deadlock", "all simulated threads are blocked at the end of a thread");
        }
        next = c[draw(S_SCHED, static_cast<uint32_t>(c.size()))];
    }
    thread_ended = true;
    switch_to(next); // this thread must not do anything afterwards
    return nullptr;
}
void run_threads(std::vector<std::function<void()>> fs) {
    std::vector<SimThread *> mine;
    std::vector<pthread_t> ids(fs.size());
    if (alive == 1) {
        sched_scale = static_cast<int>(draw(S_SCHED, 4));
    }
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 1 << 21);
    for (size_t i = 0; i < fs.size(); ++i) {
        auto *t = new SimThread{};
        t->id = static_cast<int>(threads->size());
        threads->push_back(t);
        sem_init(&t->sem, 0, 0);
        mine.push_back(t);
        ++alive;
        CHECK_INTERNAL(pthread_create(&ids[i], &attr, thread_main, new Start{t, std::move(fs[i])}) == 0);
    }
    pthread_attr_destroy(&attr);
    new_countdown();
    wait_until([&mine]() {
        for (auto *t : mine) {
            if (!t->done) {
                return false;
            }
        }
        return true;
    });
    for (auto &id : ids) {
        pthread_join(id, nullptr);
    }
}

// mutexes and guards of the repository (none at the time of writing) become scheduler objects
struct SimMutex {
    SimThread *owner{nullptr};
    int depth{0};
};
static std::map<void *, SimMutex> *mutexes = nullptr;
extern "C" int sim_pthread_mutex_lock(void *m) {
    OutRepo o;
    auto &x = (*mutexes)[m];
    yield_point();
    if (x.owner == cur) {
        ++x.depth; // recursive mutexes
        return 0;
    }
    wait_until([&x]() { return x.owner == nullptr; });
    x.owner = cur;
    x.depth = 1;
    ++cur->locks;
    return 0;
}
extern "C" int sim_pthread_mutex_trylock(void *m) {
    OutRepo o;
    auto &x = (*mutexes)[m];
    if (x.owner != nullptr) {
        return 16; // EBUSY
    }
    x.owner = cur;
    x.depth = 1;
    ++cur->locks;
    return 0;
}
extern "C" int sim_pthread_mutex_unlock(void *m) {
    OutRepo o;
    auto &x = (*mutexes)[m];
    if (x.owner == cur && --x.depth == 0) {
        x.owner = nullptr;
        --cur->locks;
    }
    yield_point();
    return 0;
}
extern "C" int sim___cxa_guard_acquire(int64_t *g) {
    if ((*reinterpret_cast<char *>(g)) != 0) {
        return 0;
    }
    OutRepo o;
    auto &x = (*mutexes)[g];
    wait_until([&x]() { return x.owner == nullptr; });
    if ((*reinterpret_cast<char *>(g)) != 0) {
        return 0;
    }
    x.owner = cur;
    ++cur->locks;
    return 1;
}
extern "C" void sim___cxa_guard_release(int64_t *g) {
    OutRepo o;
    *reinterpret_cast<char *>(g) = 1;
    (*mutexes)[g].owner = nullptr;
    --cur->locks;
}
extern "C" void sim___cxa_guard_abort(int64_t *g) {
    OutRepo o;
    (*mutexes)[g].owner = nullptr;
    --cur->locks;
}

// ---------------------------------------------------------------- entering and leaving
Env env;
bool coarse_threads = false;
bool trace_values = false;
uint64_t Env::next() {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng;
}
static void env_fill(void *p, size_t n) {
    auto *c = static_cast<unsigned char *>(p);
    switch (env.fill) {
        case 1: memset(c, 0, n); break;
        case 2: memset(c, 0xff, n); break;
        case 3: memset(c, static_cast<int>(env.next() & 0xff), n); break;
        case 4:
            while (n > 0) {
                auto x = env.next();
                auto k = std::min<size_t>(n, 8);
                memcpy(c, &x, k);
                c += k;
                n -= k;
            }
            break;
        default: break;
    }
}
// contents of the stack below a call
__attribute__((noinline)) static void env_stack() {
    unsigned char b[6144];
    env_fill(b, sizeof b);
    asm volatile("" : : "r"(b) : "memory");
}
InRepo::InRepo(int k) : saved{cur->in_repo}, kind{cur->cb_kind}, blocks{cur->cb_blocks} {
    cur->cb_kind = k;
    cur->cb_blocks = 0;
    if (env.active) {
        env_stack();
    }
    cur->in_repo = 1;
}
InRepo::~InRepo() {
    cb_blocks_last = cur->cb_blocks;
    if (cur->cb_blocks > sh->cnt[cb_blocks_max]) {
        sh->cnt[cb_blocks_max] = cur->cb_blocks;
    }
    cur->in_repo = saved;
    cur->cb_kind = kind;
    cur->cb_blocks = blocks;
}

static bool phase_ok() { return faults.phase_mask == 0 || ((faults.phase_mask >> cur->cb_kind) & 1) != 0; }

Api::Api(int fn, bool may_fail) : t{cur}, saved{cur->in_repo} {
    t->in_repo = 0;
    if (saved == 0) {
        return;
    }
    tr_out(0xA000000ull + static_cast<uint64_t>(fn));
    event(0xA0000 + static_cast<uint64_t>(fn));
    if (alive > 1) {
        yield_point();
    }
    if (may_fail && faults.armed && phase_ok()) {
        ++faults.apis_seen;
        if (faults.api > 0 && --faults.api == 0) {
            failed = true;
            ++faults.fired_api;
            count(fault_api);
            if (faults.fired_api <= faults.repeat) {
                faults.api = 1;
            }
            if (faults.where[0] == 0) {
                snprintf(faults.where, sizeof faults.where, "%s", fn_names[fn]);
            }
            log("  FAULT: %s fails", fn_names[fn]);
            faults.code = fn % 3 == 0 ? clingo_error_bad_alloc : clingo_error_runtime;
            clingo_set_error(faults.code, "injected failure");
            event(0xFA11);
        }
    }
}
Api::~Api() {
    if (env.active && saved != 0) {
        env_stack();
    }
    t->in_repo = saved;
}

// ---------------------------------------------------------------- transcripts
void tr_out(uint64_t x) {
    if (trace_values) {
        event(x);
    }
    int s = cur->solver_thread;
    if (s < 0 || (!pb.active && !pb.record)) {
        return;
    }
    if (pb.record) {
        auto &n = sh->tr_len[s];
        if (n < (1 << 18)) {
            sh->tr[s][n++] = x;
        }
    } else {
        if (pb.pos >= sh->tr_len[s] || sh->tr[s][pb.pos] != x) {
            if (sh->tr_len[s] >= (1 << 18)) {
                finish(O_OK, "ok", "transcript full");
            }
            violation("isolation",
                      "solver thread %d behaves differently when it runs alone with the same deliveries (position %zu: "
                      "expected %llx, got %llx)",
                      s, pb.pos, static_cast<unsigned long long>(pb.pos < sh->tr_len[s] ? sh->tr[s][pb.pos] : 0),
                      static_cast<unsigned long long>(x));
        }
        ++pb.pos;
    }
}
uint64_t tr_in(uint64_t x) {
    int s = cur->solver_thread;
    if (s < 0 || (!pb.active && !pb.record)) {
        return x;
    }
    if (pb.record) {
        auto &n = sh->tr_len[s];
        if (n < (1 << 18)) {
            sh->tr[s][n++] = x;
        }
        return x;
    }
    if (pb.pos >= sh->tr_len[s]) {
        finish(O_OK, "ok", "transcript ended");
    }
    return sh->tr[s][pb.pos++];
}
void tr(uint64_t x) { tr_out(x); }
void tr_lits(clingo_literal_t const *l, size_t n) {
    tr_out(n);
    for (size_t i = 0; i < n; ++i) {
        tr_out(static_cast<uint32_t>(l[i]));
    }
}

// ---------------------------------------------------------------- clock
void clock_config(uint32_t tick_ns, bool j) {
    tick = tick_ns;
    jumps = j;
}
static uint64_t read_clock() {
    if (cur->in_repo != 0 && sh != nullptr && !pb.active) {
        int saved = cur->in_repo;
        cur->in_repo = 0;
        ++clock_reads;
        sim_now += tick;
        if (env.active && env.clock != 0) {
            // many short and few long delays
            sim_now += (env.next() >> 8) % (1 + (env.clock >> env.next() % 32));
        }
        if (jumps && chance(S_FAULT, 64)) {
            count(fault_clock_jump);
            sim_now += 1000000ull * (1 + draw(S_FAULT, 1000000));
        }
        cur->in_repo = saved;
    }
    return sim_now;
}
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
    return time_point(duration(static_cast<int64_t>(read_clock())));
}
// other sources of nondeterminism
static uint64_t read_wall_clock() { return 1700000000000000000ull + env.epoch + read_clock(); }
extern "C" int64_t sim_system_clock() { return static_cast<int64_t>(read_wall_clock()); }
extern "C" unsigned sim_random_device(void *) { return static_cast<unsigned>(env.next() >> 16); }
extern "C" int sim_rand() { return static_cast<int>((env.next() >> 16) & 0x7fffffff); }
extern "C" long sim_random() { return sim_rand(); }
extern "C" time_t sim_time(time_t *t) {
    auto r = static_cast<time_t>(read_wall_clock() / 1000000000ull);
    if (t != nullptr) {
        *t = r;
    }
    return r;
}
extern "C" clock_t sim_clock() { return static_cast<clock_t>(read_clock() / 1000); }
extern "C" int sim_clock_gettime(clockid_t id, timespec *t) {
    auto x = id == CLOCK_REALTIME ? read_wall_clock() : read_clock();
    t->tv_sec = static_cast<time_t>(x / 1000000000ull);
    t->tv_nsec = static_cast<long>(x % 1000000000ull);
    return 0;
}
extern "C" int sim_gettimeofday(timeval *t, void *) {
    auto x = read_wall_clock();
    t->tv_sec = static_cast<time_t>(x / 1000000000ull);
    t->tv_usec = static_cast<suseconds_t>(x % 1000000000ull / 1000);
    return 0;
}

// ---------------------------------------------------------------- memory
namespace {
struct Entry {
    void *p;
    size_t n;
    uint64_t seq;
};
Entry *table = nullptr;
size_t tab_cap = 0, tab_used = 0;
size_t slot(void *p) { return ((reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull) >> 32; }
void tab_grow() {
    auto *old = table;
    auto n = tab_cap;
    tab_cap = tab_cap == 0 ? 1 << 14 : tab_cap * 2;
    table = static_cast<Entry *>(calloc(tab_cap, sizeof(Entry)));
    tab_used = 0;
    for (size_t i = 0; i < n; ++i) {
        if (old[i].p != nullptr) {
            for (size_t s = slot(old[i].p);; ++s) {
                auto &e = table[s & (tab_cap - 1)];
                if (e.p == nullptr) {
                    e = old[i];
                    ++tab_used;
                    break;
                }
            }
        }
    }
    free(old);
}
void tab_add(void *p, size_t n) {
    if (tab_used * 4 >= tab_cap) {
        tab_grow();
    }
    for (size_t s = slot(p);; ++s) {
        auto &e = table[s & (tab_cap - 1)];
        if (e.p == nullptr) {
            e = {p, n, ++ledger_seq};
            ++tab_used;
            break;
        }
    }
    ++ledger.live_blocks;
    ledger.live_bytes += n;
    ++ledger.total;
}
} // namespace
void race_clear(void *p, size_t n);
namespace {
bool tab_del(void *p) {
    if (tab_cap == 0) {
        return false;
    }
    for (size_t s = slot(p);; ++s) {
        auto &e = table[s & (tab_cap - 1)];
        if (e.p == nullptr) {
            return false;
        }
        if (e.p == p) {
            --ledger.live_blocks;
            ledger.live_bytes -= e.n;
            // whoever gets the block next does not share it with the one who had it
            race_clear(p, e.n);
            // close the gap so that chains do not grow
            size_t hole = s & (tab_cap - 1);
            for (size_t i = (hole + 1) & (tab_cap - 1); table[i].p != nullptr; i = (i + 1) & (tab_cap - 1)) {
                size_t home = slot(table[i].p) & (tab_cap - 1);
                if (((i - home) & (tab_cap - 1)) >= ((i - hole) & (tab_cap - 1))) {
                    table[hole] = table[i];
                    hole = i;
                }
            }
            table[hole].p = nullptr;
            --tab_used;
            return true;
        }
    }
}
} // namespace
std::string ledger_dump(uint64_t since, size_t max) {
    std::string r;
    size_t k = 0;
    for (size_t i = 0; i < tab_cap && k < max; ++i) {
        if (table[i].p != nullptr && table[i].seq > since) {
            r += " #" + std::to_string(table[i].seq) + ":" + std::to_string(table[i].n) + "B";
            ++k;
        }
    }
    return r;
}
// blocks that nobody uses, so that addresses do not follow the order of allocation
struct Hole {
    void *p{nullptr};
    void swap(size_t n) {
        free(p);
        p = malloc(n == 0 ? 1 : n);
    }
};
static Hole env_holes[64];
static void *sim_alloc(size_t n, size_t al, bool nothrow) {
    auto *t = cur;
    bool repo = !thread_ended && t->in_repo != 0;
    if (repo && faults.armed && phase_ok() && sh != nullptr) {
        ++faults.allocs_seen;
        if (faults.alloc > 0 && --faults.alloc == 0) {
            ++faults.fired_alloc;
            count(fault_alloc);
            if (faults.fired_alloc <= faults.repeat) {
                faults.alloc = 1;
            }
            if (faults.where[0] == 0) {
                snprintf(faults.where, sizeof faults.where, "allocation of %zu bytes in call kind %d", n, t->cb_kind);
            }
            int saved = t->in_repo;
            t->in_repo = 0;
            log("  FAULT: allocation of %zu bytes fails", n);
            event(0xFA10C);
            t->in_repo = saved;
            if (nothrow) {
                return nullptr;
            }
            throw std::bad_alloc();
        }
    }
    void *p = nullptr;
    if (al <= 16) {
        p = malloc(n == 0 ? 1 : n);
        if (repo && env.active) {
            if (env.scramble) {
                // any of several blocks
                void *c[4] = {p, nullptr, nullptr, nullptr};
                auto k = env.next() % 4;
                for (size_t i = 1; i <= k; ++i) {
                    c[i] = malloc(n == 0 ? 1 : n);
                }
                p = c[k];
                for (size_t i = 0; i < k; ++i) {
                    free(c[i]);
                }
                if (env.next() % 4 == 0) {
                    env_holes[env.next() % 64].swap(n);
                }
            }
            env_fill(p, n);
        }
    } else if (posix_memalign(&p, al, n == 0 ? 1 : n) != 0) {
        p = nullptr;
    }
    if (p == nullptr) {
        if (nothrow) {
            return nullptr;
        }
        throw std::bad_alloc();
    }
    race_clear(p, n);
    if (repo) {
        tab_add(p, n);
    }
    return p;
}
static void sim_free(void *p) {
    if (p != nullptr) {
        if (!thread_ended) {
            tab_del(p);
        }
        free(p);
    }
}
void *operator new(size_t n) { return sim_alloc(n, 0, false); }
void *operator new[](size_t n) { return sim_alloc(n, 0, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return sim_alloc(n, 0, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return sim_alloc(n, 0, true); }
void *operator new(size_t n, std::align_val_t a) { return sim_alloc(n, static_cast<size_t>(a), false); }
void *operator new[](size_t n, std::align_val_t a) { return sim_alloc(n, static_cast<size_t>(a), false); }
void *operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept {
    return sim_alloc(n, static_cast<size_t>(a), true);
}
void *operator new[](size_t n, std::align_val_t a, std::nothrow_t const &) noexcept {
    return sim_alloc(n, static_cast<size_t>(a), true);
}
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { sim_free(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { sim_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_free(p); }

// ---------------------------------------------------------------- races
extern "C" char __executable_start;
namespace {
constexpr size_t RACE_CAP = 1 << 18;
constexpr int RACE_THREADS = 4;
struct Granule {
    uintptr_t g;
    uint8_t rd[RACE_THREADS];
    uint8_t wr[RACE_THREADS];
    void *pc[RACE_THREADS];
};
Granule *race_tab = nullptr;
bool race_on = false;
size_t race_used = 0;
Granule *race_slot(uintptr_t g, bool create) {
    for (size_t s = g * 0x9e3779b97f4a7c15ull >> 32;; ++s) {
        auto &e = race_tab[s & (RACE_CAP - 1)];
        if (e.g == g) {
            return &e;
        }
        if (e.g == 0) {
            if (!create) {
                return nullptr;
            }
            if (++race_used > RACE_CAP / 2) {
                finish(O_BUDGET, "budget", "race table full");
            }
            e.g = g;
            return &e;
        }
    }
}
void race_access(uintptr_t a, size_t n, bool write, void *pc) {
    int t = cur->solver_thread;
    if (t < 0 || t >= RACE_THREADS || cur->locks > 0) {
        return;
    }
    count(race_accesses);
    while (n > 0) {
        uintptr_t g = a >> 3;
        size_t off = a & 7;
        size_t k = std::min<size_t>(8 - off, n);
        auto mask = static_cast<uint8_t>(((1u << k) - 1) << off);
        auto *e = race_slot(g + 1, true);
        for (int o = 0; o < RACE_THREADS; ++o) {
            if (o != t && ((e->wr[o] & mask) != 0 || (write && (e->rd[o] & mask) != 0))) {
                cur->in_repo = 0;
                violation("race",
                          "data race: solver thread %d %s memory that thread %d %s in the same search without "
                          "synchronisation (at +0x%zx and +0x%zx)",
                          t, write ? "writes" : "reads", o, (e->wr[o] & mask) != 0 ? "wrote" : "read",
                          static_cast<size_t>(static_cast<char *>(pc) - &__executable_start),
                          static_cast<size_t>(static_cast<char *>(e->pc[o]) - &__executable_start));
            }
        }
        if (write) {
            e->wr[t] |= mask;
        } else {
            e->rd[t] |= mask;
        }
        e->pc[t] = pc;
        a += k;
        n -= k;
    }
}
} // namespace
void race_reset(bool enable) {
    race_on = enable;
    if (enable) {
        if (race_tab == nullptr) {
            race_tab = static_cast<Granule *>(calloc(RACE_CAP, sizeof(Granule)));
        } else {
            memset(race_tab, 0, RACE_CAP * sizeof(Granule));
        }
        race_used = 0;
    }
}
void race_clear(void *p, size_t n) {
    if (!race_on) {
        return;
    }
    auto a = reinterpret_cast<uintptr_t>(p);
    for (uintptr_t g = a >> 3; g <= (a + n) >> 3; ++g) {
        if (auto *e = race_slot(g + 1, false); e != nullptr) {
            memset(e->rd, 0, sizeof e->rd);
            memset(e->wr, 0, sizeof e->wr);
        }
    }
}
#define RACE(n, T)                                                                                                     \
    extern "C" void __sanitizer_cov_load##n(T *a) {                                                                    \
        if (race_on && cur->in_repo != 0) race_access(reinterpret_cast<uintptr_t>(a), n, false, __builtin_return_address(0)); \
    }                                                                                                                  \
    extern "C" void __sanitizer_cov_store##n(T *a) {                                                                   \
        if (race_on && cur->in_repo != 0) race_access(reinterpret_cast<uintptr_t>(a), n, true, __builtin_return_address(0));  \
    }
RACE(1, uint8_t)
RACE(2, uint16_t)
RACE(4, uint32_t)
RACE(8, uint64_t)
RACE(16, __int128)
extern "C" void *sim_memcpy(void *d, void const *s, size_t n) {
    if (race_on && cur->in_repo != 0) {
        race_access(reinterpret_cast<uintptr_t>(s), n, false, __builtin_return_address(0));
        race_access(reinterpret_cast<uintptr_t>(d), n, true, __builtin_return_address(0));
    }
    return memcpy(d, s, n);
}
extern "C" void *sim_memmove(void *d, void const *s, size_t n) {
    if (race_on && cur->in_repo != 0) {
        race_access(reinterpret_cast<uintptr_t>(s), n, false, __builtin_return_address(0));
        race_access(reinterpret_cast<uintptr_t>(d), n, true, __builtin_return_address(0));
    }
    return memmove(d, s, n);
}
extern "C" void *sim_memset(void *d, int c, size_t n) {
    if (race_on && cur->in_repo != 0) {
        race_access(reinterpret_cast<uintptr_t>(d), n, true, __builtin_return_address(0));
    }
    return memset(d, c, n);
}

// ---------------------------------------------------------------- start of a run
void core_init_child() {
    for (int i = 0; i < N_STREAMS; ++i) {
        rng[i] = sh->seed * 0x2545f4914f6cdd1dull + static_cast<uint64_t>(i) * 0x632be59bd9b4e019ull + 12345;
        next64(rng[i]);
        sh->len[i] = sh->top[i] = 0;
    }
    sh->hash = 0;
    sh->sched_hash = 0;
    sh->ev_len = 0;
    sh->outcome = O_NONE;
    memset(sh->cnt, 0, sizeof sh->cnt);
    memset(sh->tr_len, 0, sizeof sh->tr_len);
    sh->sample[0] = 0;
    sh->msg[0] = 0;
    sh->cls[0] = 0;
    sh->note[0] = 0;
    threads = new std::vector<SimThread *>;
    mutexes = new std::map<void *, SimMutex>;
    threads->push_back(&main_thread);
    sem_init(&main_thread.sem, 0, 0);
    faults = Faults{};
}
