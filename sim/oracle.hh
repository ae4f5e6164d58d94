// Reference semantics of difference constraints, program generator and brute-force oracle.
#pragma once
#include "core.hh"
#include "solver.hh"
#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>

enum Rel { LE, LT, GE, GT, EQ, NE };
extern char const *const rel_names[6];

// weights are scaled by wscale; a strict bound is one unit smaller
extern int64_t wscale;
extern bool real_mode;
// 0: integers, 1: multiples of one half, 2: multiples of one tenth
void set_real(int mode);

// u - v rel w where variable 0 is the constant zero
struct Con {
    int u{0}, v{0}, rel{LE};
    int64_t w{0};
    bool operator<(Con const &o) const { return std::tie(u, v, rel, w) < std::tie(o.u, o.v, o.rel, o.w); }
    bool operator==(Con const &o) const { return std::tie(u, v, rel, w) == std::tie(o.u, o.v, o.rel, o.w); }
};
int vid(std::string const &name);
std::string const &vname(int id);
int num_vids();
Con negate(Con c);
std::string con_str(Con const &c);

// from - to <= w
uint64_t const BUDGET_ALL = 1000000000; // never exhausted
struct DEdge {
    int from, to;
    int64_t w;
};
bool disjunctive(Con const &c);
void edges_of(Con const &c, std::vector<DEdge> &out);             // conjunctive ones
bool consistent(std::vector<DEdge> const &es);                    // Bellman-Ford
bool consistent(std::vector<Con> const &cs);                      // with branching
bool holds(Con const &c, std::map<int, int64_t> const &val);      // integers (missing variable: false)
// all-pairs shortest paths over edges (from -> to); missing: absent
struct Dist {
    std::map<std::pair<int, int>, int64_t> d;
    explicit Dist(std::vector<DEdge> const &es);
    [[nodiscard]] int64_t const *get(int a, int b) const {
        auto it = d.find({a, b});
        return it == d.end() ? nullptr : &it->second;
    }
};

// constraints as seen through the C interface
struct LCon {
    int lit; // solver literal
    Con c;
    bool strict;
};
bool read_theory_atoms(SimControl &c, std::vector<LCon> &out);

// ---------------------------------------------------------------- programs
struct GenParams {
    int max_choice{4}, min_choice{1};
    int max_derived{2};
    int max_vars{4}, min_vars{2};
    int max_head{6}, min_head{1};
    int max_body{2};
    int max_integrity{2};
    int max_ext{0};
    int steps{1};
    bool ne{true};
    bool eq{true};
    bool big{true};       // occasionally large weights
    bool fancy{true};     // fancy variable names and terms
    bool trivial{true};   // constraints without variables
    bool disjoint{true};  // occasionally several components
    bool obs{true};       // a visible atom for each body constraint
    bool theory_in_ic{true};
    bool shifted{false};  // body constraints in integrity constraints only
    bool chains{true};
};
struct BLit {
    int atom;
    bool pos;
};
struct Atom {
    std::string name;
    int kind; // 0 choice, 1 derived, 2 external, 3 observer of a body constraint
    int step;
};
struct DRule {
    int head; // atom or -1
    std::vector<BLit> body;
    std::vector<std::pair<int, bool>> tbody; // body constraints
    int step;
    bool nn{false};    // positive body constraints with double negation
    int falsity{0};    // how the head of an integrity constraint is written
    bool first{false}; // body constraints come first
    int extra{0};      // a further body literal that holds
};
struct HCon {
    Con c;
    std::string text;
    std::vector<BLit> body;
    int step;
};
struct BCon {
    Con c;
    std::string text;
    int obs; // atom or -1
    int step;
};
struct Spec {
    std::vector<std::string> vars;
    std::vector<Atom> atoms;
    std::vector<DRule> rules;
    std::vector<HCon> heads;
    std::vector<BCon> bodies;
    int steps{1};
    std::vector<std::string> text; // per step
    std::string all_text() const;
};
Spec gen_spec(GenParams const &p);
Con gen_con(std::vector<std::string> const &vars, GenParams const &p);
std::string render_con(Con const &c, GenParams const &p);

struct Answer {
    std::string key;
    std::vector<Con> enforced; // by heads and bodies
};
// Fixed values of atoms: -1 false, 0 free, 1 true (externals and assumptions).
std::set<std::string> brute_force(Spec const &s, int step, std::map<int, int> const &fixed);
// constraints enforced by head rules under the given true atoms
std::vector<Con> fired_heads(Spec const &s, int step, std::set<std::string> const &atoms);
std::string model_key(Spec const &s, int step, SimControl &c, SThread &t);
// minimum of a variable over all answers; nullopt-like flags
enum MinResult { MIN_UNSAT, MIN_UNBOUNDED, MIN_UNASSIGNED, MIN_OK };
