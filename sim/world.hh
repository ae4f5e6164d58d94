// A theory instance attached to a simulated control, together with the checks made while it is used.
#pragma once
#include "oracle.hh"
#include <clingo-dl.h>
#include <optional>

enum Mode { M_NO, M_INVERSE, M_PARTIAL, M_PARTIALP, M_ZERO, M_FULL };

struct TOpts {
    std::vector<std::pair<std::string, std::string>> kv;
    int mode{M_NO};
    uint64_t root{0}, budget{0};
    std::map<int, int> tmode;
    std::map<int, uint64_t> troot, tbudget;
    int decide{0}; // 1 min, 2 max
    bool shift{false}, rdl{false}, cc{true};
    int mutex{0};
    int cutoff{10}; // costs of mutexes
    int sort{1};   // edges are sorted by: 0 nothing, 1 weight, 2 reversed weight, 3 potential, 4 reversed potential
    std::map<int, int> tsort;
    [[nodiscard]] int get_mode(int t) const {
        auto it = tmode.find(t);
        return it != tmode.end() ? it->second : mode;
    }
    [[nodiscard]] uint64_t get_root(int t) const {
        auto it = troot.find(t);
        return it != troot.end() ? it->second : root;
    }
    [[nodiscard]] uint64_t get_budget(int t) const {
        auto it = tbudget.find(t);
        return it != tbudget.end() ? it->second : budget;
    }
    [[nodiscard]] int get_sort(int t) const {
        auto it = tsort.find(t);
        return it != tsort.end() ? it->second : sort;
    }
    [[nodiscard]] std::string str() const;
};
struct OptParams {
    int threads{1};
    bool heuristic{true};
    bool components{true};
    bool mutexes{true};
    int min_mode{0};       // minimal mode
    int per_thread{3};     // chance 1/n for options restricted to a thread
};
TOpts gen_opts(OptParams const &p, int stream = S_CFG);
void gen_cfg(SolveCfg &cfg, int max_threads, int stream = S_CFG);

typedef std::map<int, int64_t> Values;

struct Mdl {
    std::string key;
    int thread;
    Values vals;
    std::string enforced; // canonical set of enforced constraints
};

struct World {
    // what is checked
    bool ck_models{true};    // values satisfy enforced constraints
    bool ck_clauses{false};  // clauses follow from the theory
    bool ck_fixpoint{false}; // conflicts are detected
    bool ck_strength{false}; // propagation strength
    bool ck_decide{false};   // heuristic
    bool ck_limits{false};   // limits and order of propagation
    bool ck_assign{false};   // assignment interface
    bool ck_playback{false}; // isolation of threads
    size_t max_init_clause{0}; // maximum size of clauses before search (if given)
    bool big{false};         // too many constraints for exhaustive oracles
    bool tolerant{false};    // errors are expected (faults)
    std::string tag;

    SimControl *c{nullptr};
    clingodl_theory_t *th{nullptr};
    Spec const *spec{nullptr};
    TOpts opts;
    std::vector<LCon> cons;
    bool cons_ok{true};
    int step{-1};
    std::vector<Mdl> models; // of the current solve
    std::set<std::string> keys;
    std::function<bool(World &, Mdl const &)> client_model; // returns goon
    std::function<bool(World &, SimStats &, SimStats &)> client_stats;
    std::string failed; // operation that failed (tolerant)
    std::string error;
    int error_code{0};
    uint64_t add_fails{0};   // the client refuses the n-th statement
    bool add_failed{false};
    bool bad_input{false};   // the program is malformed
    bool model_failed{false};
    std::map<std::string, size_t> index_of; // stable indices
    int extra_steps{0};

    explicit World(Spec const *s, TOpts o, std::string tag = "") : tag{std::move(tag)}, spec{s}, opts{std::move(o)} {}
    // Each returns false on error; without tolerant, errors are violations.
    bool create();
    bool configure();
    bool attach(int stream); // control and registration
    bool add_text(std::string const &text);
    bool ground(std::string const &part);
    bool load(int step);  // adds and grounds the text of a step
    bool load_all(bool separate = false);
    SolveResult solve(std::vector<int> const &assumptions = {});
    void destroy(bool theory_first = false);
    void check_answers(SolveResult const &r, std::map<int, int> const &fixed, char const *cls = "answers");
    [[nodiscard]] bool may_fail() const;
    bool check_ok(bool ok, char const *what);
    void install();
    void collect(bool from_init);
    bool on_model(ModelView &mv);
    Values values_of(ModelView &mv);
    Values values_now(SThread &t);
    bool lit_edges(int lit, std::vector<DEdge> &out);
    std::map<int, Values> values_before; // of each thread before its propagate callback
    void check_values(SThread &t, Mdl const &m);
    Values check_assignment_api(SThread &t, Values const *vals);
    void check_between(SThread &t);
    void clause_limits(SThread &t, std::vector<int> const &lits, int status);
    void clause_follows(SThread *t, std::vector<int> const &lits);
    std::multimap<int, size_t> by_lit; // constraints enforced by a literal
    void on_clause(SThread *t, std::vector<int> const &lits, int status, bool init);
    void on_fixpoint(SThread &t);
    void on_decide(SThread &t, int fallback, int res);
    int plit_of(std::string const &name) const; // 0 if absent or a fact
    void enforced(SThread &t, std::vector<Con> &out) const;

    // viability filter of C03
    struct Viable {
        std::vector<int> vars;                 // theory variables followed by auxiliary ones
        size_t n_theory{0};
        std::vector<std::pair<uint32_t, std::vector<uint32_t>>> alive; // theory assignment and auxiliary ones
        bool usable{false};
    } via;
    std::vector<std::pair<SThread *, std::vector<int>>> all_clauses;
    size_t via_pos{0};
    void via_rebuild();
    void via_clause(SThread *t, std::vector<int> const &lits);
    std::map<int, long> pc_expect;
    // playback children
    std::vector<std::pair<int, int>> kids; // pid, write end of the pipe
    void fork_playback();
    void join_playback();
};

std::string last_error();
bool is_trivial(Con const &c);
void sample_add(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
int clingodl_app_main(int argc, char **argv);
