// A simulated ASP solver behind the clingo C interface. Parsing, grounding and theory terms are real libclingo;
// search, threads, callbacks, models, statistics and the application main loop are simulated.
#pragma once
#include "core.hh"
#include <memory>
#include <optional>
#include <set>

struct SimControl;

struct SClause {
    std::vector<int> lits;
    bool learnt{false};
    bool theory{false};
};

enum AddStatus { AS_SAT, AS_FREE, AS_UNIT, AS_CONFLICT, AS_TAUT, AS_PENDING_UNIT, AS_PENDING_CONFLICT };

// A solver thread.
struct SThread {
    SThread(SimControl &c, int id);
    SimControl &c;
    int id;
    bool absent{false}; // not attached in this step
    bool fresh{true};
    std::vector<int8_t> val;
    std::vector<uint32_t> lev;
    std::vector<int> reason;
    std::vector<int> trail;
    std::vector<size_t> lim;
    size_t qhead{0};
    std::vector<SClause> cls;
    std::vector<std::vector<int>> occ;
    std::set<int> watch;
    std::vector<int> pending;
    std::vector<std::vector<int>> delivered; // by level
    std::vector<int> delivered0;             // on level 0 since the last init
    std::vector<int> batch;                  // literals of the current or last propagate call
    bool has_conflict{false};
    std::vector<int> conflict;
    bool has_todo{false};
    bool todo_learnt{true};
    std::vector<int> todo;
    size_t problem_pos{0};
    size_t inbox_pos{0};
    int64_t front{-1};
    uint32_t root{0};
    size_t root_pos{0};
    bool in_undo{false};
    uint32_t undo_level{0};
    uint64_t conflicts_n{0};
    uint64_t watch_calls{0}; // in the current propagate call
    bool unsat{false};

    void grow(int nvars);
    [[nodiscard]] uint32_t level() const { return in_undo ? undo_level : static_cast<uint32_t>(lim.size()); }
    [[nodiscard]] int value(int lit) const { // 0 free, 1 true, -1 false
        auto v = val[static_cast<size_t>(lit > 0 ? lit : -lit)];
        return lit > 0 ? v : -v;
    }
    [[nodiscard]] bool fixed(int lit) const { return value(lit) != 0 && lev[static_cast<size_t>(abs(lit))] == 0; }
    void assign(int lit, int reason_clause);
    int attach(std::vector<int> lits, bool learnt, bool theory);
    bool up();
    AddStatus status(std::vector<int> &lits, uint32_t &dl);
    bool add(std::vector<int> lits, bool learnt, bool theory); // like ClauseCreator::create; false on conflict
    void new_level(int lit);
    void undo_until(uint32_t l);
    bool integrate();
    bool propagate_all();
    bool flush_todo();
    bool resolve();
    [[nodiscard]] bool total() const;
    std::vector<int> free_vars() const;
    void search();
    void add_init_watches();
};

struct SolveCfg {
    int threads{1};
    uint64_t models{0}; // 0: all
    int learn{0};       // 0: 1UIP, 1: decisions
    int share{0};       // chance 1/share to share a learnt or theory clause (0: never)
    int restart{0};
    int forget{0};
    int forget_max{0};
    int hop{0};          // chance 1/hop to undo levels before a decision (0: never)
    uint64_t hop_max{0}; // at most that many times
    uint64_t stop_after{0}; // interrupt after that many search steps (0: never)
    uint64_t stop_inside{0}; // interrupt while a callback propagates for the n-th time (0: never)
    uint32_t absent{0};     // threads that do not get to start if the search is interrupted
    bool stop_inside_root{false}; // only count those at level zero
    int stream{S_SEARCH};
    uint64_t max_conflicts{20000};
    bool conflicts_bounded{false}; // exceeding the number of conflicts is a violation
    uint64_t max_stall{20000};     // rounds without progress
    bool up_before_init{true};
    int merge{2}; // chance 1/merge to alias equivalent atoms (0: never)
    int flip{0};  // chance 1/flip to represent an atom by a negated variable
    bool shuffle{false};
    bool races{false};
};

struct ModelView {
    SThread *t{nullptr};
    uint64_t number{0};
    std::vector<clingo_symbol_t> extended;
    int extend_calls{0};
};

struct Hooks {
    std::function<void(SThread &)> fixpoint;                                           // before each decision
    std::function<void(SThread &)> total;                                              // total and accepted by the theory
    std::function<void(SThread *, std::vector<int> const &, int status, bool)> clause; // clause given by the theory
    std::function<void(SThread &, int fallback, int result)> decide;
    std::function<void(SimControl &)> post_init;
    std::function<void(ModelView &)> model;                            // after the model event
    std::function<void(SimControl &, struct SolveResult &)> solved;    // at the end of a solve call
    std::function<void(SThread &)> propagating;                        // before a propagate callback
    std::function<void(SThread &, int kind, uint64_t t0, uint64_t t1)> callback; // after a callback of the theory
};

enum { RES_SAT = 1, RES_UNSAT = 2, RES_EXHAUSTED = 4, RES_INTERRUPTED = 8 };

struct StatNode {
    int type{0};
    double value{0};
    std::vector<uint64_t> arr;
    std::vector<std::pair<std::string, uint64_t>> map;
};
struct SimStats {
    std::vector<StatNode> nodes;
    SimStats() { nodes.push_back(StatNode{clingo_statistics_type_map, 0, {}, {}}); }
    uint64_t find(uint64_t k, char const *name) const {
        for (auto const &[n, i] : nodes[k].map) {
            if (n == name) {
                return i;
            }
        }
        return 0;
    }
};

struct Rule {
    bool choice;
    std::vector<int> head;
    std::vector<int> body;
};

struct SymAtom {
    clingo_symbol_t sym;
    std::string name;
    int plit; // program literal
};

struct SolveResult {
    bool ok{true};
    int bits{0};
    std::string error;
    uint64_t models{0};
};

// The theory atoms of a step as given to the solver.
struct SimTheory {
    struct Term {
        int type{0};
        int number{0}; // number, or name of functions
        std::string name;
        std::vector<clingo_id_t> args;
    };
    struct Element {
        std::vector<clingo_id_t> tuple;
        std::vector<clingo_literal_t> cond;
    };
    struct Atom {
        int lit{0};
        clingo_id_t term{0};
        std::vector<clingo_id_t> elems;
        bool guard{false};
        clingo_id_t op{0}, rhs{0};
    };
    std::map<clingo_id_t, Term> terms;
    std::map<clingo_id_t, Element> elems;
    std::vector<Atom> atoms;
    [[nodiscard]] std::string str(clingo_id_t t) const;
    [[nodiscard]] std::string estr(clingo_id_t e) const;
    [[nodiscard]] std::string astr(clingo_id_t a) const;
};

struct SimControl {
    clingo_control_t *real{nullptr};
    SimTheory theory;
    bool theory_closed{false}; // a new step begins with the next atom
    bool own{false};
    // propagator
    bool registered{false};
    clingo_propagator_t prop{};
    void *pdata{nullptr};
    int check_mode{clingo_propagator_check_mode_total};
    // program
    std::vector<Rule> new_rules;
    std::map<int, int> ext;     // external atoms and their type
    std::map<int, int> lit;     // program atom to solver literal
    std::set<int> defined;      // atoms with a completion
    std::map<std::vector<int>, int> bodies;
    std::vector<SymAtom> syms;
    std::set<int> theory_lits; // program atoms that are theory atoms
    // problem
    int nvars{1};
    std::vector<bool> dead;
    std::set<int> aux; // variables created by the theory
    std::vector<std::vector<int>> problem;
    std::vector<std::pair<int, std::vector<int>>> inbox; // (thread, clause)
    bool unsat{false};
    std::vector<std::unique_ptr<SThread>> threads;
    SolveCfg cfg;
    Hooks hooks;
    // current solve
    std::vector<int> root_lits;
    int step_var{0};
    bool stop{false};
    bool exhausted{false};
    bool interrupted{false};
    bool interrupted_inside{false}; // while a callback propagates
    bool error{false};
    std::string error_msg;
    int error_code{0};
    bool model_busy{false};
    uint64_t models{0};
    uint64_t search_steps{0};
    uint64_t conflicts{0};
    uint64_t hops{0};
    int forgotten{0};
    int solve_nr{0};
    bool in_init{false};
    uint64_t init_t0{0}, init_t1{0};         // simulated time of the last init
    int watches_in_init{0};
    SimStats step_stats, accu_stats;
    std::vector<std::vector<std::pair<int, int>>> init_watches; // per thread: (lit, add)
    clingo_solve_event_callback_t notify{nullptr};
    void *notify_data{nullptr};
    std::function<bool(ModelView &)> on_model; // client side (alternative to notify); returns goon
    std::function<bool(SimStats &, SimStats &)> on_stats; // false: error
    std::vector<std::unique_ptr<struct SimHandle>> handles;

    int new_var();
    int plit(int l); // solver literal of a program literal
    bool add_problem(std::vector<int> lits);
    void translate();
    void read_symbols();
    void body(std::vector<int> const &assumptions, SolveResult &res, std::function<void()> const &conclude);
    SolveResult solve(std::vector<int> const &assumptions = {}); // assumptions are program literals
    void set_error_from_clingo();
};

struct SimHandle {
    SimControl *c;
    SolveResult r;
};

SimControl *sim_control_new(int stream);
void sim_control_free(SimControl *c);
SimControl *sim_control_of(clingo_control_t *c);
// client calls that must succeed
void must(bool ok, char const *what);
std::string sym_str(clingo_symbol_t s);
// hook for controls created by clingo_main
extern std::function<void(SimControl &)> main_control_hook;
// files by name
extern std::map<std::string, std::string> sim_files;
bool callback_playback(SimControl &c, int tid);
size_t symbol_salt();
