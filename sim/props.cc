// One scenario per property.
#include "props.hh"
#include "world.hh"
#include <algorithm>
#include <cmath>
#include <memory>
#include <cerrno>
#include <cstdarg>
#include <sstream>
#include <optional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
// basic blocks per unit of work
double const WORK_FACTOR = 2;
double const MUTEX_FACTOR = 16;
uint32_t F(uint32_t n) { return draw(S_CFG, n); }

void nontrivial() { count(runs_nontrivial); }
void mark_nontrivial(bool extra = true) {
    if (extra && (sh->cnt[models] > 0 || sh->cnt[theory_clauses] > 0)) {
        nontrivial();
    }
}
GenParams shapes() {
    // the shape of the program
    GenParams p;
    switch (F(8)) {
        case 1: // many constraints over few variables
            p.max_vars = 3;
            p.max_head = 9;
            p.max_choice = 6;
            break;
        case 2: // more variables, longer chains
            p.min_vars = 4;
            p.max_vars = 7;
            p.min_head = 5;
            p.max_head = 12;
            p.max_choice = 6;
            p.max_body = 1;
            break;
        case 3: // body constraints
            p.max_body = 4;
            p.max_head = 4;
            p.max_choice = 3;
            break;
        case 4: // several components
            p.min_vars = 4;
            p.max_vars = 6;
            p.max_head = 8;
            break;
        case 5: // plain edges
            p.ne = p.eq = p.fancy = p.trivial = p.big = false;
            p.min_head = 4;
            p.max_head = 12;
            p.max_vars = 5;
            p.max_body = 1;
            p.max_choice = 7;
            p.min_choice = 3;
            break;
        default: break;
    }
    return p;
}
void describe(Spec const &s, TOpts const &o, SolveCfg const &cfg) {
    sample_add("options: %s\nthreads %d learn %d restart %d share %d\n%s", o.str().c_str(), cfg.threads, cfg.learn,
               cfg.restart, cfg.share, s.all_text().c_str());
    log("options: %s", o.str().c_str());
    log("threads %d learn %d restart %d share %d forget %d up %d merge %d flip %d shuffle %d", cfg.threads, cfg.learn,
        cfg.restart, cfg.share, cfg.forget, cfg.up_before_init ? 1 : 0, cfg.merge, cfg.flip, cfg.shuffle ? 1 : 0);
}
void start(World &w, SolveCfg const &cfg, int stream = S_SEARCH) {
    w.create();
    w.configure();
    w.attach(stream);
    w.c->cfg = cfg;
    w.c->cfg.stream = stream;
}
// literal of an atom after grounding (before solving)
int lookup_lit(World &w, std::string const &name) {
    clingo_symbol_t s = 0;
    must(clingo_parse_term(name.c_str(), nullptr, nullptr, 1, &s), "parse_term");
    clingo_symbolic_atoms_t const *atoms = nullptr;
    must(clingo_control_symbolic_atoms(w.c->real, &atoms), "symbolic_atoms");
    clingo_symbolic_atom_iterator_t it = 0;
    bool valid = false;
    must(clingo_symbolic_atoms_find(atoms, s, &it), "find");
    must(clingo_symbolic_atoms_is_valid(atoms, it, &valid), "is_valid");
    if (!valid) {
        return 0;
    }
    clingo_literal_t l = 0;
    must(clingo_symbolic_atoms_literal(atoms, it, &l), "literal");
    return l;
}

// single step, optionally several searches; flags select the oracle
struct SingleCfg {
    bool answers{true};
    int threads{3};
    int repeat{1};
    std::function<void(World &)> prepare;
    std::function<void(GenParams &)> params;
    std::function<void(OptParams &)> opts;
    std::function<void(TOpts &)> final_opts;
    std::function<void(SolveCfg &)> search;
};
void single(SingleCfg const &sc) {
    auto p = shapes();
    if (sc.params) {
        sc.params(p);
    }
    auto spec = gen_spec(p);
    static int const streams[3] = {S_SEARCH, S_SEARCH2, S_SEARCH3};
    for (int i = 0; i < sc.repeat; ++i) {
        SolveCfg cfg;
        gen_cfg(cfg, sc.threads);
        if (sc.search) {
            sc.search(cfg);
        }
        OptParams op;
        op.threads = cfg.threads;
        if (sc.opts) {
            sc.opts(op);
        }
        auto o = gen_opts(op);
        if (sc.final_opts) {
            sc.final_opts(o);
        }
        describe(spec, o, cfg);
        if (chance(S_CFG, 8)) {
            clock_config(1 + F(100000), true);
        }
        World w(&spec, o, sc.repeat > 1 ? "configuration " + std::to_string(i) + ": " : "");
        if (sc.prepare) {
            sc.prepare(w);
        }
        start(w, cfg, streams[i % 3]);
        w.load_all();
        auto r = w.solve();
        if (sc.answers) {
            w.check_answers(r, {});
        }
        sample_add("solutions: %zu models %lu bits %d\n", w.keys.size(), static_cast<unsigned long>(r.models), r.bits);
        w.destroy(F(2) == 1);
    }
    mark_nontrivial();
}

void c01() {
    SingleCfg s;
    s.answers = false;
    single(s);
}
void c02() {
    SingleCfg s;
    s.repeat = 2;
    single(s);
}
// Searches with many conflicts over more constraints than exhaustive oracles can handle.
void big_search(std::function<void(World &)> const &prepare, int min_mode, bool budget = false) {
    int n = 3 + static_cast<int>(F(F(4) == 3 ? 16 : 8));
    auto N = static_cast<uint32_t>(n);
    auto m = N * (1 + F(3)) + F(N * 2);
    auto zero = F(3); // constraints about zero: none, some, many
    auto slack = 1 + F(8), cut = F(6);
    auto spread = 1 + F(12);
    bool many_facts = budget && F(3) == 2;
    if (many_facts) {
        cut = F(4) == 3 ? 1 : 0;
    }
    std::vector<int64_t> pot;
    for (int i = 0; i <= n; ++i) {
        pot.push_back(static_cast<int64_t>(F(spread)));
    }
    Spec spec;
    spec.text.resize(1);
    auto &t = spec.text[0];
    auto groups = F(3) == 2 ? 2 + F(6) : m;
    t += "{ g(0.." + std::to_string(groups - 1) + ") }.\n";
    auto style = F(4); // bodies, heads, both
    int con = 0;
    for (uint32_t i = 0; i < m; ++i) {
        auto node = [&]() { return zero > 0 && F(zero == 1 ? 8 : 3) == 0 ? 0 : 1 + static_cast<int>(F(N)); };
        int u = node(), v = node();
        auto w = pot[static_cast<size_t>(u)] - pot[static_cast<size_t>(v)] + static_cast<int64_t>(F(slack)) - static_cast<int64_t>(cut > 0 ? F(cut) : 0);
        auto name = [](int x) { return x == 0 ? std::string("0") : "x(" + std::to_string(x) + ")"; };
        auto a = "&diff { " + name(u) + " - " + name(v) + " } <= " + std::to_string(w);
        auto g = "g(" + std::to_string(groups == m ? i : F(groups)) + ")";
        if (style == 0 || (style > 1 && F(2) == 1)) {
            t += "c(" + std::to_string(con) + ") :- " + a + ".\n";
            if (groups != m && F(2) == 1) {
                t += ":- " + g + ", not c(" + std::to_string(con) + ").\n";
            }
            ++con;
        } else if (F(many_facts ? 2 : 20) == (many_facts ? 1 : 19)) {
            t += a + ".\n";
        } else {
            t += a + " :- " + g + ".\n";
        }
    }
    // clauses that force constraints to hold so that the search runs into theory conflicts
    auto clauses = F(4) == 3 ? 0 : groups / 2 + F(groups * 2);
    for (uint32_t i = 0; i < clauses; ++i) {
        auto len = 2 + F(2);
        t += ":-";
        for (uint32_t j = 0; j < len; ++j) {
            t += std::string(j == 0 ? "" : ",") + (F(8) == 7 ? " g(" : " not g(") + std::to_string(F(groups)) + ")";
        }
        t += ".\n";
    }
    SolveCfg cfg;
    gen_cfg(cfg, 3);
    cfg.models = F(8) == 0 ? 0 : 1 + F(4);
    cfg.stop_after = 100 + F(1500);
    OptParams op;
    op.threads = cfg.threads;
    op.min_mode = min_mode;
    op.mutexes = F(4) == 3;
    auto o = gen_opts(op);
    if (budget) {
        static char const *const modes[4] = {"no", "inverse", "partial", "partial+"};
        static int const mode_ids[4] = {M_NO, M_INVERSE, M_PARTIAL, M_PARTIALP};
        static uint64_t const b[6] = {1, 5, 20, 60, 200, 600};
        auto mi = F(4);
        o.mode = mode_ids[mi];
        o.kv.emplace_back("propagate", modes[mi]);
        o.tmode.clear();
        o.tbudget.clear();
        std::vector<std::pair<std::string, std::string>> kv;
        for (auto const &x : o.kv) {
            bool of_thread = x.second.find(',') != std::string::npos && x.first != "add-mutexes";
            if (x.first.compare(0, 9, "propagate") != 0 || (x.first == "propagate-root") || (x.first == "propagate" && !of_thread)) {
                kv.push_back(x);
            }
        }
        o.kv = kv;
        if (F(4) != 3) {
            o.budget = b[F(6)];
            o.kv.emplace_back("propagate-budget", std::to_string(o.budget));
        } else {
            o.budget = 0;
        }
        if (cfg.threads > 1 && F(2) == 1) {
            auto t = static_cast<int>(F(static_cast<uint32_t>(cfg.threads)));
            o.tbudget[t] = b[F(6)];
            o.kv.emplace_back("propagate-budget", std::to_string(o.tbudget[t]) + "," + std::to_string(t));
        }
        if (F(4) != 3) {
            o.root = 0;
            o.troot.clear();
            o.kv.emplace_back("propagate-root", "0");
            std::vector<std::pair<std::string, std::string>> kv;
            for (auto const &x : o.kv) {
                if (x.first != "propagate-root" || x.second == "0") {
                    kv.push_back(x);
                }
            }
            o.kv = kv;
        }
    }
    sample_add("%d variables, %u constraints\n", n, m);
    describe(spec, o, cfg);
    World w(&spec, o);
    w.big = true;
    w.ck_models = F(8) == 7;
    prepare(w);
    start(w, cfg);
    w.load_all();
    auto r = w.solve();
    sample_add("models %lu bits %d\n", static_cast<unsigned long>(r.models), r.bits);
    w.destroy(F(2) == 1);
    count(big_searches);
    mark_nontrivial();
}
// several steps with externals, assumptions, interrupts and changing thread counts
struct MultiCfg {
    bool interrupts{true};
    bool threads{true};
    bool same_step{true}; // several solve calls in one step
    bool answers{true};
    int min_mode{0};
    int max_steps{4};
    std::function<void(World &)> prepare;
    std::function<void(World &)> started;
    std::function<void(World &, SolveResult &)> after;
    std::function<void(GenParams &)> params;
    std::function<void(TOpts &)> opts;
};
void multi(MultiCfg const &mc);
void c03() {
    if (F(3) != 2) {
        big_search([](World &w) { w.ck_clauses = true; }, 0);
        return;
    }
    if (F(2) == 1) {
        MultiCfg m;
        m.answers = false;
        m.params = [](GenParams &p) {
            p.max_head = std::min(p.max_head, 6);
            p.min_head = std::min(p.min_head, 3);
            p.max_body = std::min(p.max_body, 2);
        };
        m.prepare = [](World &w) { w.ck_clauses = true; };
        multi(m);
        return;
    }
    SingleCfg s;
    s.answers = false;
    s.params = [](GenParams &p) {
        p.max_head = std::min(p.max_head, 8);
        p.min_head = std::min(p.min_head, 5);
        p.max_body = std::min(p.max_body, 2);
    };
    s.prepare = [](World &w) { w.ck_clauses = true; };
    single(s);
}
void c04() {
    if (F(3) != 2) {
        big_search([](World &w) { w.ck_fixpoint = true; }, 0);
        return;
    }
    if (F(2) == 1) {
        MultiCfg m;
        m.answers = false;
        m.prepare = [](World &w) { w.ck_fixpoint = true; };
        multi(m);
        return;
    }
    SingleCfg s;
    s.answers = false;
    s.prepare = [](World &w) { w.ck_fixpoint = true; };
    single(s);
}
void c05() {
    if (F(3) != 2) {
        big_search([](World &w) { w.ck_strength = true; }, F(3) == 2 ? 0 : 1);
        return;
    }
    if (F(2) == 1) {
        MultiCfg m;
        m.answers = false;
        m.min_mode = F(3) == 2 ? 0 : 1;
        m.prepare = [](World &w) { w.ck_strength = true; };
        multi(m);
        return;
    }
    SingleCfg s;
    s.answers = false;
    s.prepare = [](World &w) { w.ck_strength = true; };
    s.opts = [](OptParams &o) { o.min_mode = F(3) == 2 ? 0 : 1; };
    single(s);
}
// Preprocessing adds small clauses at limited costs.
void mutexes() {
    auto n = 2 + static_cast<int>(F(F(3) == 2 ? 20 : 6));
    auto m = 10 + F(F(2) == 1 ? 200 : 40);
    Spec spec;
    spec.text.resize(1);
    auto &t = spec.text[0];
    t += "{ g(0.." + std::to_string(m - 1) + ") }.\n";
    auto neg = F(3);
    auto facts = F(3) == 2;
    double out = 0;
    std::map<int, double> degree;
    for (uint32_t i = 0; i < m; ++i) {
        auto node = [&]() { return static_cast<int>(F(static_cast<uint32_t>(n) + 1)); };
        auto name = [&](int v) { return v == 0 ? std::string("0") : "x(" + std::to_string(v) + ")"; };
        auto w = neg == 0 ? static_cast<int>(F(20)) - 2 : neg == 1 ? static_cast<int>(F(10)) : static_cast<int>(F(20)) - 8;
        auto u = node();
        auto v = node();
        out = std::max(out, ++degree[u]);
        bool fact = facts && F(8) == 0 && w >= 0;
        auto dir = w < 0 || F(2) == 1;
        t += "&diff { " + name(dir ? u : v) + " - " + name(dir ? v : u) + " } <= " + std::to_string(w) +
             (fact ? "." : " :- g(" + std::to_string(i) + ").") + "\n";
        if (!dir) {
            out = std::max(out, ++degree[v]);
        }
    }
    SolveCfg cfg;
    gen_cfg(cfg, 2);
    cfg.models = 1;
    cfg.stop_after = 50;
    TOpts o;
    o.mutex = 1 + static_cast<int>(F(6));
    static int const cut[6] = {10, 1, 3, 20, 100, 1000};
    o.cutoff = cut[F(6)];
    while (static_cast<double>(m) * o.cutoff * (static_cast<double>(m) / n + 2) > 150000 && o.cutoff > 1) {
        o.cutoff = o.cutoff / 3;
    }
    o.kv.emplace_back("add-mutexes", std::to_string(o.mutex) + (o.cutoff != 10 ? "," + std::to_string(o.cutoff) : ""));
    describe(spec, o, cfg);
    World w(&spec, o);
    w.ck_clauses = true;
    w.ck_limits = true;
    w.big = true;
    w.max_init_clause = std::max<size_t>(2, o.mutex);
    start(w, cfg);
    w.load_all();
    auto post_init = w.c->hooks.post_init;
    w.c->hooks.post_init = [&](SimControl &c) {
        auto used = static_cast<double>(cb_blocks_last);
        post_init(c);
        // each of the queued paths is extended by each constraint after looking at the path
        auto len = facts ? static_cast<double>(o.cutoff) : std::min(static_cast<double>(o.mutex), static_cast<double>(o.cutoff));
        auto bound = 20000 + (static_cast<double>(n) + m) * std::log2(n + m) * 400 +
                      MUTEX_FACTOR * m * o.cutoff * std::min<double>(out, m) * (len + 2);
        count(mutex_runs);
        auto r = static_cast<uint64_t>(std::max(0.0, used * 100 / bound));
        sh->cnt[work_mutex_max] = std::max(sh->cnt[work_mutex_max], r);
        if (used > bound) {
            violation("work", "initialization executes %.0f basic blocks for mutexes of size %d and limit %d given %u constraints of degree %.0f",
                      used, o.mutex, o.cutoff, m, out);
        }
    };
    w.solve();
    w.destroy(F(2) == 1);
    mark_nontrivial();
}
// Conflicts among constraints enforced together are found in the configured order.
void order() {
    auto n = 2 + static_cast<int>(F(6));
    auto groups = 2 + F(5);
    Spec spec;
    spec.text.resize(1);
    auto &t = spec.text[0];
    t += "{ g(0.." + std::to_string(groups - 1) + ") }.\n";
    auto low = F(8);
    if (F(2) == 1) {
        // all variables have values from the beginning
        for (int i = 1; i <= n; ++i) {
            t += "&diff { x(" + std::to_string(i) + ") - 0 } <= " + std::to_string(6 - static_cast<int>(F(16))) + ".\n";
        }
    }
    for (uint32_t g = 0; g < groups; ++g) {
        auto m = 2 + F(8);
        for (uint32_t i = 0; i < m; ++i) {
            auto name = [&]() {
                auto v = F(static_cast<uint32_t>(n) + 1);
                return v == 0 ? std::string("0") : "x(" + std::to_string(v) + ")";
            };
            auto u = name();
            auto v = name();
            t += "&diff { " + u + " - " + v + " } <= " + std::to_string(static_cast<int>(F(16)) - static_cast<int>(low)) + " :- g(" +
                 std::to_string(g) + ").\n";
        }
    }
    SolveCfg cfg;
    gen_cfg(cfg, 2);
    OptParams op;
    op.threads = cfg.threads;
    op.mutexes = false;
    auto o = gen_opts(op);
    std::vector<std::pair<std::string, std::string>> kv;
    for (auto const &x : o.kv) {
        if (x.first.compare(0, 9, "propagate") != 0) {
            kv.push_back(x);
        }
    }
    o.kv = kv;
    o.mode = M_NO;
    o.root = o.budget = 0;
    o.tmode.clear();
    o.troot.clear();
    o.tbudget.clear();
    describe(spec, o, cfg);
    World w(&spec, o);
    w.ck_limits = true;
    start(w, cfg);
    w.load_all();
    w.solve();
    w.destroy(F(2) == 1);
    mark_nontrivial();
}
// Full propagation limited by a budget: what it costs is at most the costs of consistency checks and the budget, plus the
// costs of the propagation that exceeds it.
void budget_stats(World &w) {
    w.client_stats = [](World &w, SimStats &s, SimStats &) {
        auto d = s.find(0, "DifferenceLogic");
        auto th = d != 0 ? s.find(d, "Thread") : 0;
        auto ed = d != 0 ? s.find(d, "Edges") : 0;
        if (th == 0 || ed == 0) {
            return true;
        }
        auto edges = s.nodes[ed].value;
        for (size_t i = 0; i < s.nodes[th].arr.size(); ++i) {
            auto ti = static_cast<int>(i);
            auto get = [&](char const *n) {
                auto k = s.find(s.nodes[th].arr[i], n);
                return k != 0 ? s.nodes[k].value : 0.0;
            };
            auto mode = w.opts.get_mode(ti);
            auto b = w.opts.get_budget(ti);
            if (mode == M_ZERO || mode == M_FULL || w.opts.get_root(ti) > 0 || b > 1000000) {
                continue;
            }
            auto used = get("Cost forward") + get("Cost backward"), checks = get("Cost consistency");
            auto limit = b == 0 ? 0.0 : checks + static_cast<double>(b) + 4 * edges;
            count(budget_checked);
            if (b > 0 && used > checks + static_cast<double>(b) - 2 * edges) {
                count(budget_exhausted);
            }
            log("thread %zu: budget %lu, checks cost %g, propagation costs %g", i, static_cast<unsigned long>(b), checks, used);
            if (used > limit) {
                violation("limit", "thread %zu: propagation costs %g although the budget is %lu and checks cost %g (%g edges)", i, used,
                          static_cast<unsigned long>(b), checks, edges);
            }
        }
        return true;
    };
}
void c23() {
    switch (F(6)) {
        case 5:
            big_search(
                [](World &w) {
                    w.ck_limits = true;
                    budget_stats(w);
                },
                0, true);
            break;
        case 4: order(); break;
        case 0: mutexes(); break;
        case 1:
            big_search([](World &w) { w.ck_limits = true; }, 0);
            break;
        case 2: {
            MultiCfg m;
            m.answers = false;
            m.prepare = [](World &w) { w.ck_limits = true; };
            m.params = [](GenParams &p) { p.max_choice = std::max(p.max_choice, 3); };
            multi(m);
            break;
        }
        default: {
            SingleCfg s;
            s.answers = false;
            s.prepare = [](World &w) { w.ck_limits = true; };
            single(s);
        }
    }
}
void c06() {
    auto p = shapes();
    auto spec = gen_spec(p);
    bool cc = F(3) != 2;
    // constraints that are false when the search starts do not count for components
    int merge = static_cast<int>(F(2));
    bool up = F(2) == 0;
    std::map<std::string, std::pair<Values, int>> known;
    static int const streams[3] = {S_SEARCH, S_SEARCH2, S_SEARCH3};
    int n = 2 + static_cast<int>(F(2));
    for (int i = 0; i < n; ++i) {
        SolveCfg cfg;
        gen_cfg(cfg, 3);
        cfg.merge = merge;
        cfg.up_before_init = up;
        cfg.shuffle = false;
        OptParams op;
        op.threads = cfg.threads;
        op.components = false;
        auto o = gen_opts(op);
        o.cc = cc;
        if (!cc) {
            o.kv.emplace_back("compute-components", "no");
        }
        describe(spec, o, cfg);
        World w(&spec, o, "configuration " + std::to_string(i) + ": ");
        start(w, cfg, streams[i]);
        w.load_all();
        w.solve();
        for (auto const &m : w.models) {
            count(values_compared);
            auto [it, ins] = known.emplace(m.enforced, std::make_pair(m.vals, i));
            if (!ins && it->second.first != m.vals) {
                std::string a, b;
                for (auto const &[v, x] : it->second.first) {
                    a += " " + vname(v) + "=" + std::to_string(x);
                }
                for (auto const &[v, x] : m.vals) {
                    b += " " + vname(v) + "=" + std::to_string(x);
                }
                violation("history", "solution {%s} of configuration %d (%s) has values%s but configuration %d gave%s for "
                                     "the same enforced constraints %s",
                          m.key.c_str(), i, o.str().c_str(), b.c_str(), it->second.second, a.c_str(), m.enforced.c_str());
            }
        }
        w.destroy();
    }
    mark_nontrivial(known.size() > 1);
}

void multi(MultiCfg const &mc) {
    auto p = shapes();
    p.steps = 2 + static_cast<int>(F(static_cast<uint32_t>(mc.max_steps - 1)));
    p.max_ext = 2;
    p.max_choice = std::min(p.max_choice, 5);
    p.max_body = std::min(p.max_body, 3);
    if (mc.params) {
        mc.params(p);
    }
    auto spec = gen_spec(p);
    SolveCfg cfg;
    gen_cfg(cfg, mc.threads ? 3 : 1);
    OptParams op;
    op.threads = mc.threads ? 3 : 1;
    op.min_mode = mc.min_mode;
    auto o = gen_opts(op);
    if (mc.opts) {
        mc.opts(o);
    }
    describe(spec, o, cfg);
    World w(&spec, o);
    if (mc.prepare) {
        mc.prepare(w);
    }
    start(w, cfg);
    if (mc.started) {
        mc.started(w);
    }
    std::map<int, int> ext; // atom -> -1, 0, 1 or -2 (released)
    for (int s = 0; s < spec.steps; ++s) {
        w.load(s);
        count(steps_multishot);
        int n = 1 + (mc.same_step ? static_cast<int>(F(2)) : 0);
        for (int k = 0; k < n; ++k) {
            // externals
            std::map<int, int> fixed;
            for (size_t i = 0; i < spec.atoms.size(); ++i) {
                auto const &a = spec.atoms[i];
                if (a.kind != 2 || a.step > s) {
                    continue;
                }
                auto id = static_cast<int>(i);
                auto [it, ins] = ext.emplace(id, -1);
                if (it->second != -2 && draw(S_FAULT, 2) == 1) {
                    auto l = lookup_lit(w, a.name);
                    auto what = draw(S_FAULT, 8);
                    if (l == 0) {
                    } else if (what == 7) {
                        must(clingo_control_release_external(w.c->real, l), "release_external");
                        it->second = -2;
                    } else {
                        auto tv = what < 3 ? clingo_truth_value_true : what < 5 ? clingo_truth_value_false : clingo_truth_value_free;
                        must(clingo_control_assign_external(w.c->real, l, tv), "assign_external");
                        it->second = what < 3 ? 1 : what < 5 ? -1 : 0;
                    }
                    log("external %s: %d", a.name.c_str(), it->second);
                }
                fixed[id] = it->second == -2 ? -1 : it->second;
            }
            // assumptions
            std::vector<int> as;
            if (draw(S_FAULT, 3) == 2) {
                for (size_t i = 0; i < spec.atoms.size(); ++i) {
                    auto const &a = spec.atoms[i];
                    if (a.step <= s && a.kind != 2 && draw(S_FAULT, 3) == 2) {
                        auto l = lookup_lit(w, a.name);
                        if (l == 0) {
                            continue;
                        }
                        bool pos = draw(S_FAULT, 2) == 0;
                        as.push_back(pos ? l : -l);
                        fixed[static_cast<int>(i)] = pos ? 1 : -1;
                        log("assume %s%s", pos ? "" : "not ", a.name.c_str());
                    }
                }
            }
            auto &sc = w.c->cfg;
            if (mc.threads && draw(S_FAULT, 3) == 2) {
                auto old = sc.threads;
                sc.threads = 1 + static_cast<int>(draw(S_FAULT, 3));
                sc.share = sc.threads > 1 ? 2 : 0;
                if (sc.threads != old) {
                    count(thread_count_changes);
                }
            }
            sc.stop_after = 0;
            sc.stop_inside = 0;
            sc.models = 0;
            w.client_model = nullptr;
            if (mc.interrupts) {
                switch (draw(S_FAULT, 7)) {
                    case 6:
                        sc.stop_inside = 1 + draw(S_FAULT, 5);
                        sc.stop_inside_root = draw(S_FAULT, 2) == 1;
                        break;
                    case 3: sc.stop_after = 1 + draw(S_FAULT, 25); break;
                    case 4: sc.models = 1 + draw(S_FAULT, 3); break;
                    case 5: {
                        auto m = draw(S_FAULT, 3);
                        w.client_model = [m](World &x, Mdl const &) { return x.models.size() <= m; };
                        break;
                    }
                    default: break;
                }
            }
            sc.absent = (sc.stop_after > 0 || sc.stop_inside > 0) && sc.threads > 1 ? draw(S_FAULT, 8) : 0;
            log("solve in step %d with %d threads", s, sc.threads);
            auto r = w.solve(as);
            if (mc.answers) {
                w.check_answers(r, fixed);
            }
            sample_add("step %d: threads %d solutions %zu bits %d\n", s, sc.threads, w.keys.size(), r.bits);
            if (mc.after) {
                mc.after(w, r);
            }
        }
    }
    w.destroy(F(2) == 1);
    mark_nontrivial(sh->cnt[solves] > 1);
}
void c07() {
    MultiCfg m;
    m.prepare = [](World &w) { w.ck_fixpoint = true; };
    multi(m);
}
void c12() {
    // one program, stopped at many points; then solved completely
    auto p = shapes();
    auto spec = gen_spec(p);
    SolveCfg cfg;
    gen_cfg(cfg, 3);
    OptParams op;
    op.threads = cfg.threads;
    auto o = gen_opts(op);
    describe(spec, o, cfg);
    World w(&spec, o);
    w.ck_fixpoint = true;
    start(w, cfg);
    w.load_all();
    int n = 1 + static_cast<int>(F(3));
    std::map<int, std::set<uint32_t>> open; // levels with deliveries that have to be undone
    for (int i = 0; i < n; ++i) {
        auto &sc = w.c->cfg;
        sc.stop_after = 0;
        sc.stop_inside = 0;
        sc.models = 0;
        w.client_model = nullptr;
        switch (draw(S_FAULT, 5)) {
            case 4: {
                sc.stop_inside = 1 + draw(S_FAULT, 3);
                sc.stop_inside_root = draw(S_FAULT, 2) == 1;
                if (!sc.stop_inside_root) {
                    sc.stop_inside += draw(S_FAULT, 20);
                }
                break;
            }
            case 0: sc.stop_after = 1 + draw(S_FAULT, 6); break;
            case 1: sc.stop_after = 1 + draw(S_FAULT, 60); break;
            case 2: sc.models = 1 + draw(S_FAULT, 3); break;
            default: {
                auto m = draw(S_FAULT, 3);
                w.client_model = [m](World &x, Mdl const &) { return x.models.size() <= m; };
                break;
            }
        }
        sc.absent = (sc.stop_after > 0 || sc.stop_inside > 0) && sc.threads > 1 ? draw(S_FAULT, 8) : 0;
        auto r = w.solve();
        w.check_answers(r, {});
        sample_add("stopped: %zu solutions bits %d\n", w.keys.size(), r.bits);
        // after a stop no variable that only got a value in the search may keep one
        for (auto const &t : w.c->threads) {
            if (t->lim.empty() && (r.bits & RES_UNSAT) == 0) {
                w.check_between(*t);
            }
        }
    }
    w.c->cfg.stop_after = 0;
    w.c->cfg.stop_inside = 0;
    w.c->cfg.absent = 0;
    w.c->cfg.models = 0;
    w.client_model = nullptr;
    auto r = w.solve();
    w.check_answers(r, {});
    if ((r.bits & RES_EXHAUSTED) == 0) {
        violation("answers", "the final search did not finish");
    }
    w.destroy(F(2) == 1);
    mark_nontrivial(sh->cnt[fault_interrupt] + sh->cnt[fault_model_limit] + sh->cnt[fault_client_stop] > 0);
}
void c08() {
    auto p = shapes();
    auto spec = gen_spec(p);
    SolveCfg cfg;
    gen_cfg(cfg, 1);
    cfg.threads = 2 + static_cast<int>(F(3));
    cfg.share = static_cast<int>(F(4));
    cfg.races = true;
    OptParams op;
    op.threads = cfg.threads;
    op.per_thread = 2;
    auto o = gen_opts(op);
    describe(spec, o, cfg);
    World w(&spec, o);
    w.ck_playback = true;
    start(w, cfg);
    w.load_all();
    auto n = 1 + F(2);
    for (uint32_t i = 0; i < n; ++i) {
        auto r = w.solve();
        w.check_answers(r, {});
    }
    w.destroy();
    mark_nontrivial(sh->cnt[thread_switches] > 0);
}
// smallest value of a variable over all solutions; nothing if there is none
std::optional<int64_t> minimum(Spec const &spec, int var, int64_t lo, int64_t hi) {
    Spec s = spec;
    s.heads.push_back(HCon{Con{var, 0, LE, hi}, "", {}, 0});
    auto sat = [&](int64_t b) {
        s.heads.back().c.w = b;
        return !brute_force(s, 0, {}).empty();
    };
    if (!sat(hi)) {
        return std::nullopt;
    }
    while (lo < hi) {
        auto m = lo + (hi - lo) / 2;
        if (m == hi) {
            --m;
        }
        if (sat(m)) {
            hi = m;
        } else {
            lo = m + 1;
        }
    }
    return hi;
}
// mode: 1 allocations fail, 2 calls into clingo fail
void arm(int mode);
void application(int mode) {
    auto p = shapes();
    p.max_choice = std::min(p.max_choice, 4);
    p.min_choice = std::min(p.min_choice, 4);
    p.max_body = std::min(p.max_body, 1);
    p.max_head = std::min(p.max_head, 8);
    p.min_head = std::min(p.min_head, 4);
    p.max_derived = 1;
    p.obs = true;
    static char const *const factors[5] = {"1", "1.5", "2", "3", "10"};
    auto fi = F(5);
    auto factor = factors[fi];
    bool large = fi != 0 && fi != 4 && F(6) == 5;
    p.big = large;
    auto spec = gen_spec(p);
    bool missing = F(16) == 15;
    std::string name = missing ? "missing__" : spec.vars[F(static_cast<uint32_t>(spec.vars.size()))];
    int var = vid(name);
    int64_t lo = static_cast<int64_t>(F(24)) - 8;
    if (!missing) {
        // a fact bounds the variable from below
        HCon h;
        h.c = Con{0, var, LE, -lo};
        h.text = "&diff { 0-" + name + " } <= " + std::to_string(-lo) + ".";
        h.step = 0;
        spec.heads.push_back(h);
        spec.text[0] += h.text + "\n";
    }
    SolveCfg cfg;
    gen_cfg(cfg, 3);
    OptParams op;
    op.threads = cfg.threads;
    auto o = gen_opts(op);
    describe(spec, o, cfg);
    int64_t const top = large ? (int64_t{1} << 29) : 4096;
    std::optional<int64_t> best;
    std::optional<int64_t> initial;
    auto all = brute_force(spec, 0, {});
    if (!missing) {
        best = minimum(spec, var, lo, top);
        if (!best && !all.empty()) {
            finish(O_BUDGET, "range", "the minimum is out of range");
        }
        if (F(3) == 2) {
            initial = (best ? *best : lo) + static_cast<int64_t>(F(30)) - 6;
            if (best && *best > *initial) {
                best.reset();
            }
        }
    }
    sample_add("minimize %s initial %s factor %s minimum %s\n", name.c_str(), initial ? std::to_string(*initial).c_str() : "-",
               factor, best ? std::to_string(*best).c_str() : "-");
    log("minimize %s initial %s factor %s: minimum %s", name.c_str(), initial ? std::to_string(*initial).c_str() : "-", factor,
        best ? std::to_string(*best).c_str() : "-");
    count(opt_runs);
    // command line
    sim_files["program.lp"] = spec.text[0];
    std::vector<std::string> args{"clingo-dl"};
    for (auto const &[k, v] : o.kv) {
        args.push_back("--" + k + "=" + v);
    }
    args.push_back("--minimize-variable=" + name + (initial ? "," + std::to_string(*initial) : ""));
    if (fi != 0 || F(2) == 1) {
        args.push_back(std::string("--minimize-factor=") + factor);
    }
    args.emplace_back("program.lp");
    std::vector<char *> argv;
    for (auto &a : args) {
        argv.push_back(a.data());
    }
    argv.push_back(nullptr);

    World w(&spec, o);
    w.step = 0;
    uint64_t n_solves = 0;
    uint64_t limit = 64;
    std::optional<int64_t> last;
    bool interrupted = false, was_exhausted = false, ended = false;
    main_control_hook = [&](SimControl &c) {
        w.c = &c;
        c.cfg = cfg;
        c.cfg.stream = S_SEARCH;
        auto plan = [&w]() {
            auto &c = *w.c;
            c.cfg.stop_after = 0;
            if (draw(S_FAULT, 16) == 15) {
                c.cfg.stop_after = 1 + draw(S_FAULT, 30);
            }
            if (draw(S_FAULT, 6) == 5) {
                c.cfg.threads = 1 + static_cast<int>(draw(S_FAULT, 3));
            }
        };
        plan();
        if (mode != 0) {
            arm(mode);
        }
        c.hooks.post_init = [&w](SimControl &) { w.collect(true); };
        c.hooks.clause = [&w](SThread *t, std::vector<int> const &l, int st, bool init) { w.on_clause(t, l, st, init); };
        c.hooks.fixpoint = [&w](SThread &t) { w.on_fixpoint(t); };
        c.hooks.model = [&](ModelView &mv) {
            Mdl m;
            m.key = model_key(spec, 0, *w.c, *mv.t);
            m.thread = mv.t->id;
            m.vals = w.values_of(mv);
            if (all.count(m.key) == 0) {
                violation("answers", "the reported solution {%s} is not a solution of the program", m.key.c_str());
            }
            if (missing) {
                return;
            }
            w.check_values(*mv.t, m);
            auto it = m.vals.find(var);
            if (it == m.vals.end()) {
                violation("values", "the solution {%s} has no value for %s", m.key.c_str(), name.c_str());
            }
            log("  value %lld", static_cast<long long>(it->second));
            count(opt_improvements);
            if (last && it->second >= *last) {
                violation("not-improving", "a solution with value %lld follows one with value %lld",
                          static_cast<long long>(it->second), static_cast<long long>(*last));
            }
            if (initial && it->second > *initial) {
                violation("initial-bound", "a solution with value %lld exceeds the initial bound", static_cast<long long>(it->second));
            }
            if (!best || it->second < *best) {
                violation("minimum", "the solution with value %lld is better than the minimum", static_cast<long long>(it->second));
            }
            if (!last && !large) {
                limit = 2 * static_cast<uint64_t>(it->second - *best) + 16;
            } else if (!last) {
                limit = 4000;
            }
            last = it->second;
        };
        c.hooks.solved = [&, plan](SimControl &x, SolveResult &r) {
            ++n_solves;
            log(" solve %lu: bits %d", static_cast<unsigned long>(n_solves), r.bits);
            if (ended) {
                violation("hang", "the search continues after the end");
            }
            if (n_solves > limit) {
                violation("hang", "%lu solve calls (last value %lld)", static_cast<unsigned long>(n_solves),
                          last ? static_cast<long long>(*last) : 0);
            }
            interrupted = (r.bits & RES_INTERRUPTED) != 0;
            was_exhausted = (r.bits & RES_UNSAT) != 0;
            if (!r.ok) {
                return;
            }
            // published values
            for (auto *s : {&x.step_stats, &x.accu_stats}) {
                count(stats_checked);
                char const *what = s == &x.step_stats ? "step" : "accumulated";
                auto dl = s->find(0, "DifferenceLogic");
                auto opt = dl != 0 ? s->find(dl, "Optimization") : 0;
                auto lb = dl != 0 ? s->find(dl, "Lower bound") : 0;
                if ((opt != 0) != last.has_value()) {
                    violation("published", "the %s statistics %s an optimization value", what, opt != 0 ? "have" : "lack");
                }
                if (opt != 0 && s->nodes[opt].value != static_cast<double>(*last)) {
                    violation("published", "the %s statistics have optimization value %g instead of %lld", what,
                              s->nodes[opt].value, static_cast<long long>(*last));
                }
                if (lb != 0) {
                    count(values_compared);
                    if (!best || s->nodes[lb].value > static_cast<double>(*best)) {
                        violation("published", "the %s statistics have lower bound %g", what, s->nodes[lb].value);
                    }
                }
            }
            ended = interrupted;
            plan();
        };
    };
    sh->note[0] = '\0';
    int rc = 0;
    {
        InRepo r(CB_CLIENT);
        rc = clingodl_app_main(static_cast<int>(args.size()), argv.data());
    }
    main_control_hook = nullptr;
    faults.armed = false;
    if (faults.fired()) {
        log("exit code %d: %s", rc, sh->note);
        if (rc == 0 && faults.fired_api > 0) {
            violation("swallowed", "the failure of %s is swallowed by the application", faults.where);
        }
        nontrivial();
        if (rc != 0) {
            count(errors_expected);
            return;
        }
    }
    if (missing && !interrupted) {
        if ((rc == 33) != !all.empty()) {
            violation("unexpected-error", "exit code %d (%s) for a variable that does not occur", rc, sh->note);
        }
        mark_nontrivial();
        return;
    }
    if (rc != 0 && !missing) {
        violation("unexpected-error", "the application fails: exit code %d: %s", rc, sh->note);
    }
    if (!interrupted) {
        if (!was_exhausted) {
            violation("no-proof", "the application stops without a final unsatisfiable result");
        }
        if (last.has_value() != best.has_value()) {
            violation("minimum", "the application ends %s but the minimum is %s", last ? std::to_string(*last).c_str() : "unsatisfiable",
                      best ? std::to_string(*best).c_str() : "not there");
        }
        if (last && *last != *best) {
            violation("minimum", "the application ends with value %lld but the minimum is %lld", static_cast<long long>(*last),
                      static_cast<long long>(*best));
        }
        if (!best) {
            count(opt_unsat);
        }
    }
    mark_nontrivial(n_solves > 1);
}
void c09() { application(0); }
// expected contents of the statistics, from what the simulated solver observed
struct StatsOracle {
    World &w;
    struct Thr {
        uint64_t t_prop{0}, t_undo{0}; // ns in propagate and check, and in undo
        uint64_t calls{0};             // propagate and check
        uint64_t clauses{0};
        uint64_t deliver_max{0};       // edges that may be added
        uint64_t enforced{0};          // edges that have been added
        // from the values before each call
        uint64_t added_min{0};   // edges added for sure
        uint64_t skipped_min{0}; // edges whose addition cannot change values
        uint64_t changed_min{0}; // edges whose addition has to change values
        bool batch_known{false};
        uint64_t batch_edges{0}, batch_satisfied{0}, batch_violated{0}, batch_unclear{0}, batch_clauses{0};
    };
    std::map<int, Thr> thr;
    std::map<int, std::vector<int>> facts; // delivered on level 0 in any step
    std::map<int, uint64_t> lit_cons;      // theory atoms per variable
    uint64_t init_clauses{0};
    uint64_t max_ccs{0};
    double max_edges{0}; // of all steps
    bool init_done{false};
    // accumulated
    std::map<std::string, double> acc;
    std::vector<std::map<std::string, double>> acc_thr;

    explicit StatsOracle(World &w) : w{w} {
        auto &h = w.c->hooks;
        auto init = h.post_init;
        h.post_init = [this, init](SimControl &c) {
            init(c);
            std::vector<LCon> now;
            if (read_theory_atoms(c, now)) {
                for (auto const &l : now) {
                    ++lit_cons[abs(l.lit)];
                    if (!is_trivial(l.c)) {
                        max_edges += (l.c.rel == EQ || l.c.rel == NE ? 2 : 1) * (l.strict ? 2 : 1);
                    }
                }
            }
            init_done = !c.unsat;
        };
        auto clause = h.clause;
        h.clause = [this, clause](SThread *t, std::vector<int> const &l, int st, bool in) {
            clause(t, l, st, in);
            if (in) {
                ++init_clauses;
            } else {
                ++thr[t->id].clauses;
            }
        };
        h.propagating = [this](SThread &t) {
            auto &x = thr[t.id];
            x.batch_known = this->w.cons_ok && !this->w.opts.rdl;
            x.batch_edges = x.batch_satisfied = x.batch_violated = x.batch_unclear = 0;
            x.batch_clauses = x.clauses;
            if (!x.batch_known) {
                return;
            }
            std::set<std::tuple<int, int, int, int64_t>> es; // parallel edges of different literals count
            bool all = true;
            for (int l : t.batch) {
                std::vector<DEdge> own;
                if (!this->w.lit_edges(l, own)) {
                    all = false;
                    own.clear();
                }
                for (auto const &e : own) {
                    es.emplace(l, e.from, e.to, e.w);
                }
            }
            auto vals = this->w.values_now(t);
            for (auto const &[l, u, v, wt] : es) {
                auto iu = vals.find(u), iv = vals.find(v);
                bool ku = u == 0 || iu != vals.end(), kv = v == 0 || iv != vals.end();
                ++x.batch_edges;
                if (ku != kv || (!ku && (u == 0 || v == 0))) {
                    ++x.batch_unclear; // the values are relative to zero
                    continue;
                }
                auto cost = wt - ((u != 0 && ku ? iu->second : 0) - (v != 0 && kv ? iv->second : 0));
                ++(cost >= 0 ? x.batch_satisfied : x.batch_violated);
            }
            if (!all) {
                ++x.batch_unclear;
            }
        };
        h.callback = [this](SThread &t, int kind, uint64_t t0, uint64_t t1) {
            auto &x = thr[t.id];
            if (kind == CB_PROPAGATE && x.batch_known) {
                x.batch_known = false;
                // other modes may report a conflict before
                if (x.batch_violated > 0 && x.batch_unclear == 0 &&
                    (x.clauses == x.batch_clauses || this->w.opts.get_mode(t.id) == M_NO)) {
                    ++x.changed_min;
                }
                if (x.clauses == x.batch_clauses) {
                    x.added_min += x.batch_edges;
                    if (x.batch_violated + x.batch_unclear == 0) {
                        x.skipped_min += x.batch_satisfied;
                    }
                }
            }
            if (kind == CB_UNDO) {
                x.t_undo += t1 - t0;
                return;
            }
            x.t_prop += t1 - t0;
            ++x.calls;
            auto all = uint64_t{1} << 40;
            auto add = [&](int l) {
                x.deliver_max += abs(l) == 1 ? all : 2 * (lit_cons.count(abs(l)) != 0 ? lit_cons[abs(l)] : 0) + 2;
            };
            auto &f = facts[t.id];
            if (kind == CB_PROPAGATE) {
                for (int l : t.batch) {
                    add(l);
                }
                if (t.level() == 0) {
                    f.insert(f.end(), t.batch.begin(), t.batch.end());
                }
            } else if (t.level() == 0) {
                for (int l : f) {
                    add(l);
                }
            }
        };
        auto model = w.c->on_model;
        w.c->on_model = [this, model](ModelView &mv) {
            auto r = model(mv);
            std::set<std::pair<int, Con>> es;
            for (auto const &l : this->w.cons) {
                if (is_trivial(l.c) || l.c.rel == NE) {
                    continue;
                }
                auto v = mv.t->value(l.lit);
                if (v == 1 && (l.c.rel != EQ || !l.strict)) {
                    es.emplace(l.lit, l.c);
                } else if (v == -1 && l.strict && l.c.rel != EQ) {
                    es.emplace(-l.lit, l.c);
                }
            }
            auto &x = thr[mv.t->id];
            x.enforced = std::max<uint64_t>(x.enforced, es.size());
            return r;
        };
    }
    static void bad(char const *what, char const *name, double is, double bound) {
        violation("statistics", "%s: %s is %g, bound %g", what, name, is, bound);
    }
    double value(SimStats &s, uint64_t k, char const *name) {
        auto i = s.find(k, name);
        if (i == 0 || s.nodes[i].type != static_cast<int>(clingo_statistics_type_value)) {
            violation("statistics", "there is no value %s", name);
        }
        return s.nodes[i].value;
    }
    bool check(SimStats &step, SimStats &accu) {
        static char const *const sums[3] = {"Time init(s)", "Mutexes", nullptr};
        static char const *const sizes[4] = {"CCs", "Edges", "Variables", nullptr};
        static char const *const counters[15] = {"Propagation(s)", "Dijkstra(s)", "Undo(s)", "True edges", "False edges",
                                                 "False edges (inverse)", "False edges (partial)", "False edges (partial+)",
                                                 "Edges added", "Edges skipped", "Edges propagated", "Cost consistency",
                                                 "Cost forward", "Cost backward", nullptr};
        count(stats_checked);
        auto s = step.find(0, "DifferenceLogic");
        auto a = accu.find(0, "DifferenceLogic");
        if (s == 0 || a == 0) {
            violation("statistics", "there are no statistics");
        }
        auto eq = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * std::max(1.0, std::fabs(x) + std::fabs(y)); };
        auto at_most = [&](char const *name, double x, double y) {
            count(values_compared);
            if (x > y && !eq(x, y)) {
                bad("step", name, x, y);
            }
        };
        for (auto const *n = sums; *n != nullptr; ++n) {
            acc[*n] += value(step, s, *n);
            if (!eq(acc[*n], value(accu, a, *n))) {
                bad("accumulated", *n, value(accu, a, *n), acc[*n]);
            }
        }
        for (auto const *n = sizes; *n != nullptr; ++n) {
            if (value(step, s, *n) != value(accu, a, *n)) {
                bad("accumulated", *n, value(accu, a, *n), value(step, s, *n));
            }
        }
        auto st = step.find(s, "Thread");
        auto at = accu.find(a, "Thread");
        if (st == 0 || at == 0) {
            violation("statistics", "there are no thread statistics");
        }
        auto n_thr = step.nodes[st].arr.size();
        acc_thr.resize(std::max(acc_thr.size(), n_thr));
        if (accu.nodes[at].arr.size() != acc_thr.size()) {
            bad("accumulated", "number of threads", static_cast<double>(accu.nodes[at].arr.size()),
                static_cast<double>(acc_thr.size()));
        }
        for (size_t i = 0; i < acc_thr.size(); ++i) {
            for (auto const *n = counters; *n != nullptr; ++n) {
                auto v = i < n_thr ? value(step, step.nodes[st].arr[i], *n) : 0.0;
                if (v < 0) {
                    bad("step", *n, v, 0);
                }
                acc_thr[i][*n] += v;
                auto x = value(accu, accu.nodes[at].arr[i], *n);
                if (!eq(x, acc_thr[i][*n])) {
                    violation("statistics", "accumulated: thread %zu: %s is %g instead of %g", i, *n, x, acc_thr[i][*n]);
                }
            }
        }
        at_most("init time", value(step, s, "Time init(s)"), static_cast<double>(w.c->init_t1 - w.c->init_t0) * 1e-9);
        if (init_done && w.cons_ok) {
            check_step(step, s, st, n_thr, at_most);
        } else {
            count(skipped_oracle);
        }
        thr.clear();
        init_clauses = 0;
        init_done = false;
        return true;
    }
    void check_step(SimStats &step, uint64_t s, uint64_t st, size_t n_thr,
                    std::function<void(char const *, double, double)> const &at_most) {
        auto v = [&](char const *n) { return value(step, s, n); };
        auto at_least = [&](char const *name, double x, double y) {
            if (x < y) {
                bad("step", name, x, y);
            }
        };
        if (n_thr != static_cast<size_t>(w.c->cfg.threads)) {
            bad("step", "number of threads", static_cast<double>(n_thr), w.c->cfg.threads);
        }
        // sizes
        std::map<int, int> up;
        std::function<int(int)> find = [&](int x) { return up[x] == x ? x : up[x] = find(up[x]); };
        size_t edges = 0;
        for (auto const &l : w.cons) {
            for (int x : {l.c.u, l.c.v}) {
                if (x != 0 && !is_trivial(l.c)) {
                    up.emplace(x, x);
                }
            }
        }
        for (auto const &l : w.cons) {
            if (!is_trivial(l.c) && l.c.u != 0 && l.c.v != 0) {
                up[find(l.c.u)] = find(l.c.v);
            }
        }
        std::set<int> roots;
        for (auto const &[x, p] : up) {
            roots.insert(find(x));
        }
        for (auto const &[i, x] : thr) {
            edges = std::max<size_t>(edges, x.enforced);
        }
        auto names = static_cast<double>(w.spec->vars.size());
        at_least("Edges", v("Edges"), static_cast<double>(edges));
        at_most("Edges", v("Edges"), max_edges);
        auto ccs = v("CCs");
        max_ccs = std::max(max_ccs, static_cast<uint64_t>(ccs));
        if (w.opts.cc) {
            at_least("CCs", ccs, static_cast<double>(roots.size()));
            at_most("CCs", ccs, names);
        } else {
            at_most("CCs", ccs, 0);
        }
        at_least("Variables", v("Variables"), static_cast<double>(up.size()));
        at_most("Variables", v("Variables"), names + 1 + static_cast<double>(max_ccs));
        at_most("Mutexes", v("Mutexes"), w.opts.mutex == 0 ? 0.0 : static_cast<double>(init_clauses));
        // threads
        for (size_t i = 0; i < n_thr; ++i) {
            auto t = [&](char const *n) { return value(step, step.nodes[st].arr[i], n); };
            auto &x = thr[static_cast<int>(i)];
            auto ti = static_cast<int>(i);
            auto mode = w.opts.get_mode(ti);
            bool limited = w.opts.get_root(ti) > 0 || w.opts.get_budget(ti) > 0;
            bool full = mode == M_FULL || limited;
            bool strong = full || mode == M_ZERO;
            at_most("Propagation(s)", t("Propagation(s)"), static_cast<double>(x.t_prop) * 1e-9);
            at_most("Undo(s)", t("Undo(s)"), static_cast<double>(x.t_undo) * 1e-9);
            at_most("Dijkstra(s)", t("Dijkstra(s)"), t("Propagation(s)"));
            auto added = t("Edges added");
            if (added > 0 && !(t("Propagation(s)") > 0)) {
                bad("step", "Propagation(s)", t("Propagation(s)"), 0);
            }
            at_most("Edges added", added, static_cast<double>(x.deliver_max));
            if (!strong) {
                at_least("Edges added", added, static_cast<double>(std::max(x.enforced, x.added_min)));
                at_least("Edges skipped", t("Edges skipped"), static_cast<double>(x.skipped_min));
                at_most("Edges skipped", t("Edges skipped"), added - static_cast<double>(x.changed_min));
                count(stats_skipped, x.skipped_min);
                count(stats_changed, x.changed_min);
            } else if (x.enforced > 0 && mode != M_ZERO && mode != M_FULL) {
                at_least("Edges added", added, 1);
            }
            at_most("Edges skipped", t("Edges skipped"), added);
            at_most("Edges propagated", t("Edges propagated"),
                    strong ? (mode == M_ZERO && full ? 2 * added : added) : 0.0);
            if (mode == M_FULL && x.calls > 0) {
                // a conflict ends the callback, every other edge is propagated
                at_least("Edges propagated", t("Edges propagated"), added - static_cast<double>(x.calls));
            }
            auto e = v("Edges");
            at_most("True edges", t("True edges"), 4 * e * t("Edges propagated"));
            at_most("False edges", t("False edges"), 4 * e * t("Edges propagated"));
            auto inv = t("False edges (inverse)"), part = t("False edges (partial)"), plus = t("False edges (partial+)");
            if (mode < M_INVERSE) {
                at_most("False edges (inverse)", inv, 0);
            }
            if (mode < M_PARTIAL) {
                at_most("False edges (partial)", part, 0);
            }
            if (mode < M_PARTIALP) {
                at_most("False edges (partial+)", plus, 0);
            }
            auto low = inv + part + plus;
            at_most("False edges (inverse, partial, partial+)", low, static_cast<double>(x.clauses));
            at_most("clauses", static_cast<double>(x.clauses), low + t("False edges") + static_cast<double>(x.calls));
            if (!strong) {
                at_most("Cost forward", t("Cost forward"), 0);
                at_most("Cost backward", t("Cost backward"), 0);
            }
            if (t("Edges skipped") == added) {
                at_most("Cost consistency", t("Cost consistency"), 0);
            }
        }
    }
};
void c13() {
    std::shared_ptr<StatsOracle> so;
    MultiCfg m;
    m.started = [&so](World &w) {
        so = std::make_shared<StatsOracle>(w);
        w.client_stats = [&so](World &, SimStats &s, SimStats &a) { return so->check(s, a); };
    };
    switch (F(3)) {
        case 0: clock_config(1 + F(1000), false); break;
        case 1: clock_config(1 + F(100000000), false); break;
        default: clock_config(1 + F(100000), true); break;
    }
    multi(m);
}
// ---------------------------------------------------------------- faults
bool no_faults = false; // warming up
void arm(int mode) {
    static uint32_t const limits[6] = {5, 30, 200, 1000, 2, 80};
    static int const phases[10] = {0, 0, 1 << CB_INIT, (1 << CB_PROPAGATE) | (1 << CB_CHECK), 1 << CB_DECIDE, 1 << CB_EVENT,
                                   1 << CB_AST, 1 << CB_UNDO, 1 << CB_CLIENT, (1 << CB_CHECK) | (1 << CB_PROPAGATE)};
    faults.phase_mask = phases[draw(S_FAULT, 10)];
    auto n = 1 + draw(S_FAULT, limits[draw(S_FAULT, 6)]);
    faults.repeat = draw(S_FAULT, 8) == 7 ? 1 + static_cast<int>(draw(S_FAULT, 3)) : 0;
    (mode == 1 ? faults.alloc : faults.api) = n;
    faults.armed = !no_faults;
    log("arm: %s number %u phases %d repeat %d", mode == 1 ? "allocation" : "call", n, faults.phase_mask, faults.repeat);
}
struct BadAtom {
    char const *elems, *guard;
};
BadAtom const bad_atoms[] = {
    {"bx*by", " <= 3"},       {"2*bx-by", " <= 3"},        {"bx+by", " <= 3"},      {"bx-by-bz", " <= 3"},
    {"bx-by; by-bz", " <= 3"}, {"bx,by", " <= 3"},          {"bx-by : #true", " <= 3"}, {"bx-by", ""},
    {"", " <= 3"},            {"bx-by", " <= \"1.5\""},    {"bx-by", " <= 2147483647 + 1"}, {"bx-by", " <= 65536*65536"},
    {"f(1/0)-by", " <= 1"},   {"bx-by", " < -2147483647-1"}, {"bx-by", " > 2147483647"}, {"bx-by", " <= bz"},
    {"bx", " <= by+bz"},      {"-bx-by", " <= 3"},         {"bx-by", " <= 1-bz"},   {"bx-by", " >= 65536*65536"},
    {"f(a*b)-by", " <= 3"},  {"f(2147483647+1)-by", " >= 3"}, {"f(0-2147483647-2)", " = 0"}, {"bx-by", " != 2147483647+1"},
    {"bx-3*by", " = 1"},      {"bx+by", " != 0"},
};
bool kill_keys(World &w, std::set<std::string> const &expect, char const *what) {
    for (auto const &k : w.keys) {
        if (expect.count(k) == 0) {
            violation("answers", "%s: the reported solution {%s} is not a solution of the program (step %d)", what, k.c_str(), w.step);
        }
    }
    return true;
}
// mode: 1 allocations fail, 2 calls into clingo fail, 3 malformed constraint, 4 client callback fails, 5 malformed options
void faulty(int mode) {
    auto p = shapes();
    p.steps = 1 + static_cast<int>(F(3));
    p.max_choice = std::min(p.max_choice, 5);
    p.max_body = std::min(p.max_body, 3);
    auto spec = gen_spec(p);
    SolveCfg cfg;
    gen_cfg(cfg, 3);
    OptParams op;
    op.threads = cfg.threads;
    auto o = gen_opts(op);
    if (mode != 3 && F(4) == 3) {
        o.shift = true;
        o.kv.emplace_back("shift-constraints", "yes");
    }
    // malformed constraint
    int bad_step = -1;
    int bad_choice = -1; // enforced only if this choice is true
    if (mode == 3) {
        bad_step = static_cast<int>(draw(S_FAULT, static_cast<uint32_t>(spec.steps)));
        auto const &b = bad_atoms[draw(S_FAULT, sizeof(bad_atoms) / sizeof(bad_atoms[0]))];
        std::string atom = std::string("&diff { ") + b.elems + " }" + b.guard;
        std::string line;
        switch (draw(S_FAULT, 3)) {
            case 0: line = atom + "."; break;
            case 1: {
                for (size_t i = 0; i < spec.atoms.size(); ++i) {
                    if (spec.atoms[i].kind == 0 && spec.atoms[i].step <= bad_step) {
                        bad_choice = static_cast<int>(i);
                    }
                }
                line = atom + (bad_choice < 0 ? "." : " :- " + spec.atoms[static_cast<size_t>(bad_choice)].name + ".");
                break;
            }
            default: line = "bad__ :- " + atom + "."; break;
        }
        auto &text = spec.text[static_cast<size_t>(bad_step)];
        // at the beginning, the end or somewhere in between
        std::vector<size_t> pos{0};
        for (size_t i = 0; i < text.size(); ++i) {
            if (text[i] == '\n') {
                pos.push_back(i + 1);
            }
        }
        text.insert(pos[draw(S_FAULT, static_cast<uint32_t>(pos.size()))], line + "\n");
        log("malformed: %s", line.c_str());
        sample_add("malformed in step %d: %s\n", bad_step, line.c_str());
    }
    describe(spec, o, cfg);
    World w(&spec, o);
    w.tolerant = true;
    auto arm_at = mode <= 2 ? draw(S_FAULT, 6) : 9; // 0: before create, 1, 2: before solving, 3..: later
    if (mode <= 2 && arm_at == 0) {
        arm(mode);
    }
    int before = 0;
    // a failed call makes the surrounding operation fail with its error
    auto check = [&](bool ok, char const *what) {
        if (faults.fired_api > before) {
            if (ok) {
                violation("swallowed", "the failure of %s is swallowed by %s", faults.where, what);
            }
            if (faults.fired_api == before + 1 && w.error_code != faults.code) {
                violation("wrong-error", "%s failed with code %d but %s reports code %d (%s)", faults.where, faults.code, what,
                          w.error_code, w.error.c_str());
            }
            if (faults.fired_api == before + 1 && faults.code == clingo_error_runtime && w.error != "injected failure") {
                violation("wrong-error", "%s failed but %s reports '%s'", faults.where, what, w.error.c_str());
            }
        }
        before = faults.fired_api;
        return ok;
    };
    auto over = [&]() {
        if (faults.fired() || mode > 2) {
            nontrivial();
        }
        sample_add("failures: %d allocations %d calls (%s) operation %s: %s\n", faults.fired_alloc, faults.fired_api, faults.where,
                   w.failed.c_str(), w.error.c_str());
        w.destroy(F(2) == 1);
        faults.armed = false;
    };
    if (!check(w.create(), "clingodl_create")) {
        // nothing has been created
        faults.armed = false;
        over();
        return;
    }
    if (mode == 5) {
        // malformed options are refused and change nothing
        static char const *const bad[][2] = {
            {"propagate", "foo"}, {"propagate", "full,64"}, {"propagate", "full,"}, {"propagate", "full,x"}, {"propagate-root", "-1"},
            {"propagate-root", "x"}, {"propagate-root", ""}, {"propagate-root", "1,64"}, {"propagate-budget", "-5"},
            {"propagate-budget", "1,,"}, {"unknown", "1"}, {"compute-components", "maybe"}, {"sort-edges", "w"},
            {"sort-edges", "weight,99"}, {"add-mutexes", "x"}, {"add-mutexes", "3,x"}, {"rdl", "2"}, {"shift-constraints", ""},
            {"", ""}, {"propagate", "partial+-"},
        };
        auto n = 1 + draw(S_FAULT, 3);
        for (uint32_t i = 0; i < n; ++i) {
            auto const &b = bad[draw(S_FAULT, sizeof(bad) / sizeof(bad[0]))];
            bool ok = false;
            {
                InRepo r(CB_CLIENT);
                ok = clingodl_configure(w.th, b[0], b[1]);
            }
            count(fault_bad_input);
            log("configure %s=%s: %s", b[0], b[1], ok ? "ok" : last_error().c_str());
            if (ok) {
                violation("swallowed", "the invalid option %s=%s is accepted", b[0], b[1]);
            }
            if (clingo_error_code() == 0 || last_error().empty()) {
                violation("wrong-error", "no error is set for the invalid option %s=%s", b[0], b[1]);
            }
            // mutexes and limits may have been set before the value turned out to be invalid
        }
        w.tolerant = false;
    }
    if (mode <= 2 && arm_at == 1) {
        arm(mode);
    }
    if (!check(w.configure(), "clingodl_configure") || !check(w.attach(S_SEARCH), "clingodl_register")) {
        over();
        return;
    }
    w.c->cfg = cfg;
    w.c->cfg.stream = S_SEARCH;
    if (mode == 4) {
        w.add_fails = 1 + draw(S_FAULT, 20);
    }
    for (int s = 0; s < spec.steps; ++s) {
        if (mode <= 2 && !faults.armed && (arm_at == 2 || (arm_at >= 3 && draw(S_FAULT, 2) == 1))) {
            arm(mode);
        }
        bool bad = bad_step == s;
        w.bad_input = w.bad_input || bad;
        bool ok = check(w.load(s), "rewriting");
        if (mode == 4) {
            if (w.add_failed && ok) {
                violation("swallowed", "the failure of the client is swallowed by rewriting");
            }
            if (w.add_failed && (w.error_code != clingo_error_logic || w.error != "client failure")) {
                violation("wrong-error", "the client failed but rewriting reports code %d (%s)", w.error_code, w.error.c_str());
            }
        }
        if (bad) {
            count(fault_bad_input);
        }
        if (!ok) {
            over();
            return;
        }
        auto expect = brute_force(spec, s, {});
        int n = 1 + static_cast<int>(draw(S_FAULT, 2));
        for (int k = 0; k < n; ++k) {
            if (mode <= 2 && !faults.armed && arm_at >= 4) {
                arm(mode);
            }
            bool late = faults.fired();
            auto r = w.solve();
            kill_keys(w, expect, r.ok ? "solving" : "failed solving");
            if (late) {
                count(after_fault_solves);
            }
            check(r.ok, "solving");
            if (w.bad_input && bad_step == s) {
                // the error has to be reported unless the constraint does not matter
                if (r.ok) {
                    auto without = expect;
                    if (bad_choice >= 0) {
                        without = brute_force(spec, s, {{bad_choice, 1}});
                    }
                    if (!without.empty()) {
                        violation("swallowed", "a malformed constraint is not reported");
                    }
                    if (bad_choice < 0 || w.models.empty()) {
                        over();
                        return;
                    }
                }
            }
            if (r.ok && (bad_step < 0 || s < bad_step || bad_choice >= 0)) {
                w.check_answers(r, {});
            }
            if (!r.ok && k + 1 == n && n == 1) {
                n = 2; // once more in the same step
            }
        }
        if (w.bad_input && s == bad_step) {
            count(after_fault_solves);
        }
    }
    over();
}
void c10() {
    if (F(5) == 4) {
        application(1);
    } else {
        faulty(1);
    }
}
void c11() {
    switch (F(10)) {
        case 5: application(2); break;
        case 6: case 7: faulty(3); break;
        case 8: faulty(4); break;
        case 9: faulty(5); break;
        default: faulty(2); break;
    }
}
void c14() {
    SingleCfg s;
    s.opts = [](OptParams &o) { o.heuristic = false; };
    s.repeat = 1;
    auto kind = F(4); // 0: none
    s.prepare = [kind](World &w) {
        static char const *const n[4] = {"none", "min", "max", "min"};
        if (kind != 0 || F(2) == 1) {
            w.opts.kv.emplace_back("dl-heuristic", n[kind]);
        }
        w.opts.decide = kind == 0 ? 0 : kind == 2 ? 2 : 1;
        w.ck_decide = true;
    };
    single(s);
}
void c16() {
    if (F(2) == 0) {
        SingleCfg s;
        s.answers = false;
        s.prepare = [](World &w) {
            w.ck_assign = true;
            w.ck_fixpoint = true;
        };
        single(s);
    } else {
        MultiCfg m;
        m.prepare = [](World &w) { w.ck_assign = true; };
        multi(m);
    }
}
// real numbers
void c17() {
    set_real(1 + static_cast<int>(F(2)));
    auto kind = F(8);
    bool shift = F(3) == 2;
    auto params = [shift](GenParams &p) {
        p.big = false;
        if (shift) {
            p.shifted = true;
            p.max_body = std::max(p.max_body, 2);
            p.max_integrity = 4;
        } else {
            p.max_body = 0;
        }
    };
    auto real = [shift](TOpts &o) {
        o.rdl = true;
        o.kv.emplace_back("rdl", "yes");
        if (shift) {
            o.shift = true;
            o.kv.emplace_back("shift-constraints", "yes");
            count(shift_runs);
        }
    };
    if (kind == 7) {
        // constraints in bodies are refused
        auto p = shapes();
        params(p);
        p.max_body = 0;
        auto spec = gen_spec(p);
        auto rel = rel_names[F(6)];
        spec.text[0] += std::string(F(2) == 0 ? "bad__" : "") + " :- &diff { v0-v1 } " + rel + " 3" +
                        (F(2) == 0 ? ", " + spec.atoms[0].name : std::string()) + ".\n";
        SolveCfg cfg;
        gen_cfg(cfg, 2);
        OptParams op;
        op.threads = cfg.threads;
        auto o = gen_opts(op);
        o.rdl = true;
        o.kv.emplace_back("rdl", "yes");
        describe(spec, o, cfg);
        World w(&spec, o);
        w.tolerant = true;
        w.bad_input = true;
        start(w, cfg);
        w.load_all();
        auto r = w.solve();
        if (r.ok && !brute_force(spec, 0, {}).empty()) {
            violation("swallowed", "a constraint in a body is accepted with real numbers");
        }
        count(fault_bad_input);
        w.destroy(F(2) == 1);
        nontrivial();
        return;
    }
    if (kind >= 5) {
        MultiCfg m;
        m.params = params;
        m.opts = real;
        m.prepare = [](World &w) { w.ck_assign = true; };
        multi(m);
        return;
    }
    SingleCfg s;
    s.params = params;
    s.final_opts = real;
    s.prepare = [kind](World &w) {
        w.ck_clauses = kind == 1;
        w.ck_fixpoint = kind == 2;
        w.ck_strength = kind == 3;
        w.ck_assign = kind == 4;
    };
    if (kind == 3) {
        s.opts = [](OptParams &o) { o.min_mode = F(3) == 2 ? 0 : 1; };
    }
    single(s);
}
// ---------------------------------------------------------------- work and termination
struct BigEdge {
    int u, v; // 0 is the zero
    int64_t w;
    int group;
    int fact{-1}; // 1: always a fact, 0: never
};
// graphs that are hard for shortest path algorithms
std::vector<BigEdge> big_graph(int &n, int &groups) {
    std::vector<BigEdge> es;
    auto family = F(10);
    n = 4 + static_cast<int>(F(F(4) == 3 ? 60 : 24));
    auto N = static_cast<uint32_t>(n);
    auto add = [&](int u, int v, int64_t w) { es.push_back(BigEdge{u, v, w, 0}); };
    bool keep = false;
    auto node = [&]() { return static_cast<int>(F(N + 1)); };
    switch (family) {
        case 0: { // chains with detours of exponential weights
            n = std::min(n, 24);
            bool rev = F(2) == 1;
            for (int i = 1; i + 2 <= n; i += 2) {
                int64_t w = int64_t{1} << (rev ? i : n - i);
                int sign = F(8) == 7 ? -1 : 1;
                add(i, i + 1, sign * w);
                add(i + 1, i + 2, 0);
                add(i, i + 2, sign * w / 2);
                if (F(4) == 3) {
                    add(i + 2, i, 4 * w);
                }
            }
            break;
        }
        case 1: { // cycles of weight zero
            auto m = N * (1 + F(4));
            for (uint32_t i = 0; i < m; ++i) {
                auto u = node(), v = node();
                add(u, v, 0);
                add(v, u, 0);
            }
            break;
        }
        case 2: { // bounds
            for (int i = 1; i <= n; ++i) {
                add(i, 0, static_cast<int64_t>(F(50)));
                add(0, i, static_cast<int64_t>(F(50)) - 25);
                add(i, 1 + static_cast<int>(F(N)), static_cast<int64_t>(F(10)) - 2);
            }
            break;
        }
        case 3: { // grid
            int k = 2;
            while ((k + 1) * (k + 1) <= n) {
                ++k;
            }
            n = k * k;
            for (int x = 0; x < k; ++x) {
                for (int y = 0; y < k; ++y) {
                    int a = 1 + x * k + y;
                    if (x + 1 < k) {
                        add(a, a + k, static_cast<int64_t>(F(9)) - 1);
                        add(a + k, a, static_cast<int64_t>(F(9)) - 1);
                    }
                    if (y + 1 < k) {
                        add(a, a + 1, static_cast<int64_t>(F(9)) - 1);
                        add(a + 1, a, static_cast<int64_t>(F(9)) - 1);
                    }
                }
            }
            break;
        }
        case 4: { // parallel edges and self loops
            auto m = N * (2 + F(6));
            n = std::min(n, 4);
            for (uint32_t i = 0; i < m; ++i) {
                add(1 + static_cast<int>(F(static_cast<uint32_t>(n))), static_cast<int>(F(static_cast<uint32_t>(n) + 1)),
                    static_cast<int64_t>(F(8)) - 2);
            }
            break;
        }
        case 5: { // layers
            int width = 2 + static_cast<int>(F(3));
            for (int i = 1; i + width <= n; ++i) {
                int layer = (i - 1) / width;
                for (int j = 0; j < width; ++j) {
                    int b = 1 + (layer + 1) * width + j;
                    if (b <= n) {
                        add(i, b, static_cast<int64_t>(F(5)) - 3);
                    }
                }
            }
            for (int i = 0; i < 3; ++i) {
                add(node(), node(), static_cast<int64_t>(F(30)));
            }
            break;
        }
        case 6: { // one long cycle, closed last
            for (int i = 1; i < n; ++i) {
                add(i, i + 1, static_cast<int64_t>(F(3)) - 1);
                add(i + 1, i, static_cast<int64_t>(F(3)) + 1);
            }
            add(n, 1, n);
            break;
        }
        case 8: { // an edge that changes all costs via paths that look good at first
            int k = 8 + static_cast<int>(F(16));
            n = 2 * k + 1;
            bool rev = F(3) == 2, flip = F(2) == 1, direct = F(2) == 1;
            auto first = F(5);
            auto diamond = [&](int a, int m, int b, int64_t w) {
                bool f = first < 2 ? first == 0 : first < 4 ? (first == 2) == direct : F(2) == 1;
                if (f) {
                    add(a, b, direct ? w : 0);
                }
                add(a, m, direct ? 0 : w);
                if (!f) {
                    add(a, b, direct ? w : 0);
                }
                add(m, b, 0);
            };
            for (int i = 0; i < k; ++i) {
                diamond(1 + 2 * i, 2 + 2 * i, 3 + 2 * i, int64_t{1} << (rev ? i : k - i));
            }
            for (auto &e : es) {
                e.fact = 1;
            }
            if (F(4) == 3) { // negative weights
                std::vector<int64_t> pot;
                for (int i = 0; i <= n; ++i) {
                    pot.push_back(static_cast<int64_t>(F(1U << 20)));
                }
                for (auto &e : es) {
                    e.w += pot[static_cast<size_t>(e.u)] - pot[static_cast<size_t>(e.v)];
                }
            }
            add(0, 1, F(2) == 1 ? 7 : -(int64_t{1} << (24 + F(4))));
            if (F(3) == 2) {
                add(0, n, 7);
            }
            for (auto &e : es) {
                if (e.fact != 1) {
                    e.fact = 0;
                }
                if (flip) {
                    std::swap(e.u, e.v);
                }
            }
            keep = F(4) != 3;
            break;
        }
        default: { // random with potentials
            std::vector<int64_t> pot;
            for (int i = 0; i <= n; ++i) {
                pot.push_back(static_cast<int64_t>(F(200)) - 100);
            }
            auto m = N * (1 + F(6));
            for (uint32_t i = 0; i < m; ++i) {
                auto u = node(), v = node();
                add(u, v, pot[static_cast<size_t>(u)] - pot[static_cast<size_t>(v)] + static_cast<int64_t>(F(12)) - (F(6) == 5 ? 12 : 0));
            }
        }
    }
    // order and grouping by condition
    if (keep) {
    } else if (F(2) == 1) {
        for (size_t i = es.size(); i > 1; --i) {
            std::swap(es[i - 1], es[F(static_cast<uint32_t>(i))]);
        }
    } else if (F(2) == 1) {
        std::reverse(es.begin(), es.end());
    }
    static uint32_t const per[4] = {1, 1, 4, 1000};
    auto g = per[F(4)];
    groups = 0;
    for (size_t i = 0; i < es.size(); ++i) {
        es[i].group = static_cast<int>(i / g);
        groups = es[i].group + 1;
    }
    return es;
}
// Bounds the work of callbacks by the number of constraints enforced in the call and the size of the graph, and the
// memory of the theory by the size of the graph alone.
struct WorkMonitor {
    World &w;
    double n, m, unit;
    double lits{0}; // in clauses of the current call
    std::map<std::pair<int, size_t>, double> added;
    std::map<int, double> per_lit;
    int64_t bytes{-1};
    double mem{0};
    WorkMonitor(World &w, double n, double m, double factor = 0) : w{w}, n{n}, m{m}, unit{(n + m) * std::log2(n + m + 2)} {
        if (factor > 0) {
            mem = factor * (n + m) * n;
        }
        w.c->hooks.post_init = [this, &w](SimControl &) {
            w.collect(true);
            for (auto const &c : w.cons) {
                per_lit[c.lit] += 4;
                per_lit[-c.lit] += 4;
            }
            lits = 0;
            bytes = -1;
        };
        w.c->hooks.clause = [this](SThread *, std::vector<int> const &l, int, bool) { lits += static_cast<double>(l.size()); };
        w.c->hooks.callback = [this](SThread &t, int kind, uint64_t, uint64_t) { callback(t, kind); };
    }
    void callback(SThread &t, int kind) {
        auto used = static_cast<double>(cb_blocks_last);
        auto level = t.lim.size();
        double edges = 0;
        if (kind == CB_PROPAGATE) {
            for (int l : t.batch) {
                auto it = per_lit.find(l);
                edges += it != per_lit.end() ? it->second : 2;
            }
            auto &a = added[{t.id, level}];
            a += edges;
        } else if (kind == CB_CHECK) {
            edges = level == 0 ? m : 0;
        } else if (kind == CB_UNDO) {
            auto it = added.find({t.id, t.level()});
            edges = it != added.end() ? it->second : 0;
            added.erase({t.id, t.level()});
        }
        count(work_checked);
        double bound = (edges + 1) * unit + lits;
        auto ratio = used * 100 / bound;
        int k = kind == CB_PROPAGATE ? work_propagate_max : kind == CB_CHECK ? work_check_max : work_undo_max;
        if (used > 20000 && ratio > static_cast<double>(sh->cnt[k])) {
            sh->cnt[k] = static_cast<uint64_t>(ratio);
        }
        if (used > 20000 + WORK_FACTOR * bound) {
            violation("work", "a call of kind %d executes %.0f basic blocks for %.0f new edges in a graph with %.0f vertices and %.0f "
                              "edges adding clauses with %.0f literals",
                      kind, used, edges, n, m, lits);
        }
        lits = 0;
        if (kind == CB_PROPAGATE) {
            auto most = 2 * std::max(static_cast<double>(per_lit.size()), 2.0 * w.c->nvars);
            auto r = static_cast<uint64_t>(static_cast<double>(t.watch_calls) * 100 / (most + 1));
            sh->cnt[work_watch_max] = std::max(sh->cnt[work_watch_max], r);
            if (static_cast<double>(t.watch_calls) > 64 + most) {
                violation("work", "a propagate call adds or removes %lu watches while there are just %.0f literals",
                          static_cast<unsigned long>(t.watch_calls), most / 2);
            }
        }
        if (mem > 0) {
            if (bytes < 0) {
                bytes = static_cast<int64_t>(ledger.live_bytes);
            }
            auto grown = static_cast<double>(static_cast<int64_t>(ledger.live_bytes) - bytes);
            auto r = static_cast<uint64_t>(std::max(0.0, grown * 100 / mem));
            sh->cnt[work_memory_max] = std::max(sh->cnt[work_memory_max], r);
            if (grown > 16384 + mem) {
                violation("memory", "the theory acquired %.0f bytes during the search in a graph with %.0f vertices and %.0f edges", grown,
                          n, m);
            }
        }
    }
};
void c19_big() {
    int n = 0, groups = 0;
    auto es = big_graph(n, groups);
    auto body = F(3) == 2;
    auto other = F(3) == 2; // also disequalities and equalities
    Spec spec;
    spec.text.resize(1);
    auto &t = spec.text[0];
    t += "{ g(0.." + std::to_string(groups - 1) + ") }.\n";
    bool facts = F(4) == 3;
    int con = 0;
    for (auto const &e : es) {
        auto name = [](int i) { return i == 0 ? std::string("0") : "x(" + std::to_string(i) + ")"; };
        std::string a = "&diff { " + name(e.u) + " - " + name(e.v) + " } ";
        a += other && e.fact < 0 && F(5) == 4 ? (F(2) == 1 ? "!= " : "= ") : "<= ";
        a += std::to_string(e.w);
        auto g = "g(" + std::to_string(e.group) + ")";
        if (body && e.fact < 0 && F(3) == 2) {
            t += "c(" + std::to_string(con) + ") :- " + a + ".\n:- " + g + ", not c(" + std::to_string(con) + ").\n";
            ++con;
        } else if (e.fact != 0 && (e.fact == 1 || (facts && F(3) != 2))) {
            t += a + ".\n";
        } else {
            t += a + " :- " + g + ".\n";
        }
    }
    SolveCfg cfg;
    gen_cfg(cfg, 2);
    cfg.models = 1 + F(4);
    cfg.stop_after = 60 + F(200);
    cfg.max_stall = 400 + 8 * es.size();
    OptParams op;
    op.threads = cfg.threads;
    op.mutexes = F(8) == 7;
    auto o = gen_opts(op);
    if (F(3) == 2) {
        // propagation without limits
        o = TOpts{};
        o.mode = M_FULL;
        o.kv.emplace_back("propagate", F(3) == 2 ? "zero" : "full");
    }
    sample_add("%d variables, %zu constraints, %d groups\n", n, es.size(), groups);
    Spec shown = spec;
    describe(shown, o, cfg);
    World w(&spec, o);
    double m = static_cast<double>(es.size()) * 4;
    start(w, cfg);
    w.load_all();
    WorkMonitor wm{w, static_cast<double>(n), m};
    w.solve();
    if (F(2) == 1) {
        wm.added.clear();
        w.solve(); // facts are propagated again
    }
    w.destroy(F(2) == 1);
    mark_nontrivial();
}
// many levels are established and undone again
void c19_long() {
    auto n = 3 + static_cast<int>(F(6));
    auto m = 10 + F(40);
    Spec spec;
    spec.text.resize(1);
    auto &t = spec.text[0];
    t += "{ g(0.." + std::to_string(m - 1) + ") }.\n";
    auto loose = F(3); // how likely negative cycles are
    for (uint32_t i = 0; i < m; ++i) {
        auto name = [&]() {
            auto v = F(static_cast<uint32_t>(n) + 1);
            return v == 0 ? std::string("0") : "x(" + std::to_string(v) + ")";
        };
        auto w = loose == 0 ? static_cast<int>(F(20)) - 2 : loose == 1 ? static_cast<int>(F(10)) : static_cast<int>(F(20)) - 8;
        auto u = name();
        auto v = name();
        auto g = "g(" + std::to_string(i) + ")";
        t += "&diff { " + u + " - " + v + " } <= " + std::to_string(w) + " :- " + g + ".\n";
    }
    SolveCfg cfg;
    gen_cfg(cfg, 2);
    static int const hop[4] = {3, 10, 30, 100};
    cfg.hop = hop[F(4)];
    cfg.hop_max = 1000000;
    cfg.models = 0;
    cfg.forget = 1;
    cfg.forget_max = 1000000;
    cfg.stop_after = 1000 + F(8) * 500;
    cfg.max_stall = 2000;
    TOpts o;
    static char const *const modes[6] = {"no", "inverse", "partial", "partial+", "zero", "full"};
    o.mode = static_cast<int>(F(6));
    o.kv.emplace_back("propagate", modes[o.mode]);
    if (F(4) != 3) {
        o.root = 1 + F(8);
        o.kv.emplace_back("propagate-root", std::to_string(o.root));
    }
    if (F(3) == 2) {
        o.budget = 1 + F(1000);
        o.kv.emplace_back("propagate-budget", std::to_string(o.budget));
    }
    sample_add("%d variables, %u constraints\n", n, m);
    describe(spec, o, cfg);
    World w(&spec, o);
    start(w, cfg);
    w.load_all();
    WorkMonitor wm{w, static_cast<double>(n), m * 2.0, 60};
    w.solve();
    w.destroy(F(2) == 1);
    mark_nontrivial();
}
// rewriting takes time linear in the size of the program
void c19_rewrite() {
    auto kind = F(5);
    auto size = 20 + static_cast<int>(F(400));
    std::string t;
    auto term = [&](int depth) {
        std::string r = "x";
        for (int i = 0; i < depth; ++i) {
            switch (kind) {
                case 1: r = "f(" + r + ")"; break;
                default: r = "f(a," + r + ",b)";
            }
        }
        return r;
    };
    switch (kind) {
        case 0: // long rules
            t = "{ a(1..3) }.\n&diff { x - y } <= 1 :- a(1)";
            for (int i = 0; i < size; ++i) {
                t += F(2) == 1 ? ", a(2)" : ", not a(3)";
            }
            t += ".\n";
            break;
        case 1: case 2: // deep terms
            size = std::min(size, 120);
            t = "&diff { " + term(size) + " - y } <= 1.\n";
            break;
        case 3: // sums
            t = "&diff { x - y } <= ";
            for (int i = 0; i < size; ++i) {
                t += (i > 0 ? "+" : "") + std::to_string(F(3));
            }
            t += ".\n";
            break;
        default: // elements that cancel
            size = std::min(size, 200);
            t = "&diff { x - y";
            for (int i = 0; i < size; ++i) {
                t += " + z" + std::to_string(i) + " - z" + std::to_string(i);
            }
            t += " } <= 1.\n";
    }
    Spec spec;
    spec.text.push_back(t);
    SolveCfg cfg;
    cfg.stop_after = 200;
    auto o = gen_opts(OptParams{});
    if (F(2) == 1) {
        o.shift = true;
        o.kv.emplace_back("shift-constraints", "yes");
    }
    describe(spec, o, cfg);
    World w(&spec, o);
    start(w, cfg);
    sh->cnt[cb_blocks_max] = 0;
    w.load_all();
    auto check = [&](char const *what) {
        auto used = sh->cnt[cb_blocks_max];
        count(work_checked);
        auto n = static_cast<double>(t.size());
        auto ratio = static_cast<uint64_t>(static_cast<double>(used) * 100 / (n * n));
        if (used > 40000) {
            sh->cnt[work_parse_max] = std::max(sh->cnt[work_parse_max], ratio);
        }
        if (static_cast<double>(used) > 40000 + n * n) {
            violation("work", "%s executes %lu basic blocks for a program of %zu characters", what,
                      static_cast<unsigned long>(used), t.size());
        }
    };
    check("rewriting");
    w.solve();
    check("initialising");
    w.destroy();
    nontrivial();
}
void c19() {
    switch (F(7)) {
        case 0: case 1: case 2: c19_big(); break;
        case 3: c19_rewrite(); break;
        case 4: multi(MultiCfg{}); break;
        case 5: c19_long(); break;
        default: {
            SingleCfg s;
            s.search = [](SolveCfg &c) {
                c.max_conflicts = 8000;
                c.conflicts_bounded = true;
                c.max_stall = 1000;
            };
            single(s);
        }
    }
}
// the same work several times in one process
void c18() {
    symbol_salt();
    auto kind = F(8);
    auto sub = 1 + static_cast<int>(F(2));
    auto work = [&]() {
        switch (kind) {
            case 0: case 1: faulty(1); break;
            case 2: faulty(2); break;
            case 3: faulty(2 + sub); break;
            case 4: application(sub); break;
            case 5: multi(MultiCfg{}); break;
            case 6: faulty(5); break;
            default: {
                SingleCfg s;
                s.prepare = [](World &w) { w.ck_assign = true; };
                single(s);
            }
        }
    };
    auto mark = draw_mark();
    uint64_t blocks = 0, bytes = 0;
    uint64_t seq = 0;
    for (int i = 0; i < 4; ++i) {
        draw_rewind(mark);
        faults = Faults{};
        no_faults = i == 0;
        log("repetition %d", i);
        work();
        faults.armed = false;
        count(ledger_checked);
        if (ast_balance != 0) {
            violation("leak", "%ld references to syntax-tree nodes are not released%s", ast_balance, faults.fired() ? " after a failure" : "");
        }
        // a scratch table of the parser keeps the variables of the last constraint, which is the same from here on
        if (i > 1 && (ledger.live_blocks > blocks || ledger.live_bytes > bytes)) {
            violation("leak", "%ld blocks with %ld bytes are not released%s%s in repetition %d:%s",
                      static_cast<long>(ledger.live_blocks - blocks), static_cast<long>(ledger.live_bytes - bytes),
                      faults.fired() ? " after failure of " : "", faults.where, i, ledger_dump(seq, 8).c_str());
        }
        blocks = ledger.live_blocks;
        bytes = ledger.live_bytes;
        seq = ledger_seq;
        if (i == 0) {
            sample_add("live after warming up: %lu blocks\n", static_cast<unsigned long>(blocks));
        }
    }
}
// ---------------------------------------------------------------- several instances
// An instance with its client as a sequence of operations whose observable results are recorded.
struct Instance {
    int id;
    Spec spec;
    SolveCfg cfg;
    TOpts opts;
    int stream;
    bool theory_first{false};
    bool real{false};
    bool bad{false}; // the program is refused
    std::unique_ptr<World> w;
    std::vector<std::function<void()>> ops;
    size_t next{0};
    char *out{nullptr};
    uint32_t len{0};
    std::function<void()> meanwhile; // called while a solution is examined
    bool busy{false};
    static constexpr uint32_t CAP = 1 << 19;

    void line(char const *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, fmt);
        if (len < CAP) {
            auto n = vsnprintf(out + len, CAP - len, fmt, ap);
            len = std::min<uint32_t>(CAP, len + static_cast<uint32_t>(n));
        }
        va_end(ap);
        if (len + 1 < CAP) {
            out[len++] = '\n';
            out[len] = '\0';
        }
    }
    void stats(SimStats &s, uint64_t k, std::string const &path) {
        auto const n = s.nodes[k];
        if (n.type == static_cast<int>(clingo_statistics_type_value)) {
            if (path.find("(s)") == std::string::npos) {
                line("stat %s=%g", path.c_str(), n.value);
            }
        }
        for (size_t i = 0; i < n.arr.size(); ++i) {
            stats(s, n.arr[i], path + "/" + std::to_string(i));
        }
        for (auto const &[m, i] : n.map) {
            stats(s, i, path + "/" + m);
        }
    }
    void hooks() {
        auto &c = *w->c;
        c.hooks = Hooks{};
        c.hooks.clause = [this](SThread *t, std::vector<int> const &l, int st, bool init) {
            std::string s = t != nullptr && t->id > 0 ? " thread " + std::to_string(t->id) : "";
            for (int x : l) {
                s += " " + std::to_string(x);
            }
            line("clause%s%s (%d)", init ? " (init)" : "", s.c_str(), st);
        };
        c.hooks.decide = [this](SThread &, int f, int r) { line("decide %d %d", f, r); };
        c.on_model = [this](ModelView &mv) {
            bool ok = false;
            {
                InRepo r(CB_EVENT);
                ok = clingodl_on_model(w->th, reinterpret_cast<clingo_model_t *>(&mv));
            }
            line("model %d {%s}", ok, model_key(spec, w->step, *w->c, *mv.t).c_str());
            count(values_compared, mv.extended.size());
            for (auto s : mv.extended) {
                line("  %s", sym_str(s).c_str());
            }
            if (meanwhile) {
                meanwhile();
            }
            walk(static_cast<uint32_t>(mv.t->id));
            return true;
        };
        c.on_stats = [this](SimStats &st, SimStats &ac) {
            bool ok = false;
            {
                InRepo r(CB_EVENT);
                ok = clingodl_on_statistics(w->th, reinterpret_cast<clingo_statistics_t *>(&st),
                                            reinterpret_cast<clingo_statistics_t *>(&ac));
            }
            line("statistics %d", ok);
            stats(st, 0, "step");
            stats(ac, 0, "accu");
            return ok;
        };
    }
    void walk(uint32_t tid) {
        count(assignment_walks);
        size_t idx = 0;
        InRepo r(CB_EVENT);
        clingodl_assignment_begin(w->th, tid, &idx);
        for (int n = 0; n < 1000 && clingodl_assignment_next(w->th, tid, &idx); ++n) {
            auto s = clingodl_get_symbol(w->th, idx);
            clingodl_value_t v{};
            clingodl_assignment_get_value(w->th, tid, idx, &v);
            OutRepo o;
            if (v.type == clingodl_value_type_int) {
                line("  value %s %d", sym_str(s).c_str(), v.int_number);
            } else {
                line("  value %s %g (%d)", sym_str(s).c_str(), v.double_number, static_cast<int>(v.type));
            }
        }
    }
    void prepare() {
        w = std::make_unique<World>(&spec, opts, "instance " + std::to_string(id) + ": ");
        w->cons_ok = false;
        w->tolerant = w->bad_input = bad;
        ops.clear();
        next = 0;
        len = 0;
        busy = false;
        ops.emplace_back([this]() { w->create(); });
        auto kv = opts.kv;
        for (auto const &x : kv) {
            ops.emplace_back([this, x]() {
                InRepo r(CB_CLIENT);
                auto ok = clingodl_configure(w->th, x.first.c_str(), x.second.c_str());
                OutRepo o;
                line("configure %d", ok);
            });
        }
        ops.emplace_back([this]() {
            w->attach(stream);
            w->c->cfg = cfg;
            w->c->cfg.stream = stream;
            hooks();
        });
        for (int s = 0; s < spec.steps; ++s) {
            ops.emplace_back([this, s]() { w->load(s); });
            ops.emplace_back([this]() {
                auto r = w->solve();
                line("result %d %d %lu %s", r.ok, r.bits, static_cast<unsigned long>(r.models), r.error.c_str());
            });
        }
        ops.emplace_back([this]() { w->destroy(theory_first); });
    }
    bool step() {
        if (next >= ops.size() || busy) {
            return false;
        }
        auto i = next++;
        busy = true;
        log("instance %d: operation %zu", id, i);
        ops[i]();
        busy = false;
        return next < ops.size();
    }
};
void c15() {
    symbol_salt();
    auto n = 2 + static_cast<int>(F(2));
    static int const streams[3] = {S_SEARCH, S_SEARCH2, S_SEARCH3};
    std::vector<std::unique_ptr<Instance>> is;
    auto p = shapes();
    p.max_choice = std::min(p.max_choice, 4);
    p.max_head = std::min(p.max_head, 9);
    p.max_body = std::min(p.max_body, 2);
    p.big = false;
    for (int i = 0; i < n; ++i) {
        auto x = std::make_unique<Instance>();
        x->id = i;
        auto q = p;
        q.steps = 1 + static_cast<int>(F(2));
        x->real = F(3) == 2;
        set_real(x->real ? 1 : 0);
        if (x->real) {
            q.max_body = 0;
        }
        if (i > 0 && F(4) == 3 && !x->real && !is[0]->real) {
            x->spec = is[0]->spec; // the same program with other options
            x->bad = is[0]->bad;
        } else {
            x->spec = gen_spec(q);
        }
        if (!x->bad && F(4) == 3) { // fails
            static char const *const bad[6] = {
                "&diff { v0 - v1 + 2147483647 + 2147483647 } <= 1.\n",
                "&diff { v1 - v0 + 2147483647*v2 + 2147483647*v2 } <= 1.\n",
                "&diff { v0 - v1 + v2 } <= 1.\n",
                "&diff { v0 - 2*v1 } <= 1.\n",
                "&diff { v0 - v1*v2 } <= 1.\n",
                "&diff { f(1/0) - v1 } <= 1.\n",
            };
            auto s = F(static_cast<uint32_t>(x->spec.text.size()));
            // large sums are fine for doubles but beyond the precision needed for epsilon
            auto kind = F(6);
            auto line = std::string(bad[x->real && kind < 2 ? kind + 2 : kind]);
            if (F(2) == 1) {
                line = (F(2) == 1 ? "bad :- " : ":- ") + line;
            }
            x->spec.text[s] += line;
            x->bad = true;
            count(fault_bad_input);
        }
        gen_cfg(x->cfg, 1);
        OptParams op;
        op.threads = 2; // options for threads
        x->opts = gen_opts(op);
        if (F(2) == 1) {
            static char const *const h[3] = {"min", "max", "none"};
            x->opts.kv.emplace_back("dl-heuristic", h[F(3)]);
        }
        if (x->real) {
            x->opts.kv.emplace_back("rdl", "yes");
            x->opts.rdl = true;
        }
        if (F(6) == 5) {
            x->opts.kv.emplace_back(F(2) == 0 ? "propagate" : "shift-constraints", "maybe"); // refused
        }
        x->stream = streams[i];
        x->theory_first = F(2) == 1;
        sample_add("instance %d:\n%s%s\n", i, x->spec.text[0].c_str(), x->opts.str().c_str());
        is.push_back(std::move(x));
    }
    set_real(0);
    // each alone
    static char *mem = nullptr;
    mem = static_cast<char *>(mmap(nullptr, 2 * 3 * Instance::CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    CHECK_INTERNAL(mem != MAP_FAILED);
    auto mark = draw_mark();
    uint64_t cnt[N_COUNTERS];
    memcpy(cnt, sh->cnt, sizeof cnt);
    auto hash = sh->hash, sched_hash = sh->sched_hash;
    auto ev_len = sh->ev_len;
    for (int i = 0; i < n; ++i) {
        auto &x = *is[static_cast<size_t>(i)];
        x.out = mem + i * Instance::CAP;
        fflush(stdout);
        auto pid = fork();
        CHECK_INTERNAL(pid >= 0);
        if (pid == 0) {
            alarm(60);
            log("instance %d alone", i);
            x.prepare();
            while (x.step()) {
            }
            finish(O_OK, "ok", "");
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            // crashes the same way here
            log("instance %d alone crashes", i);
            x.prepare();
            while (x.step()) {
            }
            violation("crash", "instance %d alone ends with status %d", i, st);
        }
        if (sh->outcome != O_OK) {
            core_cov_flush();
            _exit(0);
        }
        sh->outcome = O_NONE;
        draw_rewind(mark);
        memcpy(sh->cnt, cnt, sizeof cnt);
        sh->hash = hash;
        sh->sched_hash = sched_hash;
        sh->ev_len = ev_len;
    }
    // all together
    for (int i = 0; i < n; ++i) {
        auto &x = *is[static_cast<size_t>(i)];
        x.out = mem + (3 + i) * Instance::CAP;
        x.prepare();
    }
    auto how = draw(S_SCHED, 4);
    auto active = [&is]() {
        std::vector<Instance *> v;
        for (auto &x : is) {
            if (x->next < x->ops.size() && !x->busy) {
                v.push_back(x.get());
            }
        }
        return v;
    };
    if (how >= 2) {
        // one thread for each instance
        race_reset(true);
        std::vector<std::function<void()>> fs;
        for (auto &x : is) {
            auto *y = x.get();
            y->meanwhile = []() { yield_point(); };
            fs.emplace_back([y]() {
                cur->solver_thread = 0;
                while (y->step()) {
                    yield_point();
                }
            });
        }
        run_threads(std::move(fs));
        race_reset(false);
    } else {
        // one thread for all instances
        auto any = [&]() {
            auto v = active();
            if (!v.empty()) {
                v[draw(S_SCHED, static_cast<uint32_t>(v.size()))]->step();
            }
            return !v.empty();
        };
        if (how == 1) {
            for (auto &x : is) {
                x->meanwhile = [&any]() {
                    while (draw(S_SCHED, 3) == 2 && any()) {
                    }
                };
            }
        }
        while (any()) {
        }
    }
    for (int i = 0; i < n; ++i) {
        std::istringstream a(mem + i * Instance::CAP), b(mem + (3 + i) * Instance::CAP);
        std::string la, lb, ctx;
        count(isolation_compared);
        for (int l = 0;; ++l) {
            bool ha = static_cast<bool>(std::getline(a, la));
            bool hb = static_cast<bool>(std::getline(b, lb));
            if (!ha && !hb) {
                break;
            }
            if (ha != hb || la != lb) {
                violation("interference", "instance %d (of %d, %s): alone '%s' but together with the others '%s' (event %d, after '%s')",
                          i, n, how >= 2 ? "in threads" : how == 1 ? "nested" : "in turns", ha ? la.c_str() : "end",
                          hb ? lb.c_str() : "end", l, ctx.c_str());
            }
            ctx = la;
        }
    }
    mark_nontrivial();
}
// ---------------------------------------------------------------- the same calls once more
void instance_alone() {
    static char *mem = static_cast<char *>(malloc(Instance::CAP));
    Instance x;
    x.id = 0;
    auto p = shapes();
    p.steps = 1 + static_cast<int>(F(3));
    x.real = F(4) == 3;
    if (x.real) {
        p.max_body = 0;
        p.big = false;
    }
    set_real(x.real ? 1 : 0);
    x.spec = gen_spec(p);
    gen_cfg(x.cfg, 3);
    OptParams op;
    op.threads = x.cfg.threads;
    x.opts = gen_opts(op);
    if (x.real) {
        x.opts.kv.emplace_back("rdl", "yes");
        x.opts.rdl = true;
    }
    if (F(4) == 3) {
        x.opts.kv.emplace_back("shift-constraints", "yes");
        x.opts.shift = true;
    }
    x.stream = S_SEARCH;
    x.theory_first = F(2) == 1;
    describe(x.spec, x.opts, x.cfg);
    x.out = mem;
    x.prepare();
    while (x.step()) {
    }
    // the transcript is part of what is compared
    for (uint32_t i = 0; i < x.len;) {
        auto *e = static_cast<char *>(memchr(mem + i, '\n', x.len - i));
        auto n = e != nullptr ? static_cast<uint32_t>(e - mem) : x.len;
        uint64_t h = 1469598103934665603ull;
        for (auto k = i; k < n; ++k) {
            h = (h ^ static_cast<unsigned char>(mem[k])) * 1099511628211ull;
        }
        log("> %.*s", static_cast<int>(n - i), mem + i);
        event(h);
        i = n + 1;
    }
    mark_nontrivial();
}
void c24() {
    auto kind = F(10);
    struct Surroundings {
        int fill;
        bool scramble;
        uint64_t clock, epoch, rng;
    } su[2];
    su[0] = {1 + static_cast<int>(F(2)), false, 0, 0, 1};
    su[1] = {3 + static_cast<int>(F(2)), F(4) != 3, F(4) == 0 ? 0 : 1000000ull << (F(4) * 8), static_cast<uint64_t>(F(1000000)) << 40,
             1 + F(1000000)};
    auto work = [kind]() {
        SingleCfg s;
        s.answers = false;
        switch (kind) {
            case 0: single(s); break;
            case 1: {
                MultiCfg m;
                m.answers = false;
                multi(m);
                break;
            }
            case 2:
                big_search([](World &) {}, 0);
                break;
            case 3: application(0); break;
            case 4: faulty(1 + static_cast<int>(F(5))); break;
            case 5: order(); break;
            case 6: mutexes(); break;
            default: instance_alone();
        }
    };
    coarse_threads = true;
    trace_values = true;
    auto mark = draw_mark();
    uint64_t cnt[N_COUNTERS];
    memcpy(cnt, sh->cnt, sizeof cnt);
    auto hash = sh->hash, sched_hash = sh->sched_hash;
    auto ev_len = sh->ev_len;
    struct Result {
        int outcome;
        std::string cls, msg;
        uint64_t hash;
        std::vector<uint64_t> ev;
    } res[2];
    char sample[sizeof sh->sample];
    memcpy(sample, sh->sample, sizeof sample);
    for (int i = 0; i < 2; ++i) {
        auto &x = su[i];
        if (i == 1) {
            sh->outcome = O_NONE;
            draw_rewind(mark);
            memcpy(sh->cnt, cnt, sizeof cnt);
            memcpy(sh->sample, sample, sizeof sample);
            sh->hash = hash;
            sh->sched_hash = sched_hash;
            sh->ev_len = ev_len;
        }
        fflush(stdout);
        auto pid = fork();
        CHECK_INTERNAL(pid >= 0);
        if (pid == 0) {
            alarm(60);
            log("execution %d: fresh memory %s%s, clock +%lu", i,
                x.fill == 1 ? "zeros" : x.fill == 2 ? "ones" : x.fill == 3 ? "bytes" : "random",
                x.scramble ? ", scattered" : "", static_cast<unsigned long>(x.clock));
            env.fill = x.fill;
            env.scramble = x.scramble;
            env.clock = x.clock;
            env.epoch = x.epoch;
            env.rng = x.rng;
            env.active = true;
            if (i == 1) {
                env.salt = x.rng % 7;
                // addresses of symbols
                std::vector<std::string> names;
                for (auto const *n : {"f(1)", "f(x,2)", "(a,1)", "\"s t\"", "g(h(1))", "start(job,1)", "f((1,2))", "a", "x", "y", "z"}) {
                    names.emplace_back(n);
                }
                for (int j = 0; j < 24; ++j) {
                    for (auto const *n : {"v", "a", "c", "e"}) {
                        names.emplace_back(n + std::to_string(j));
                    }
                    names.emplace_back("x(" + std::to_string(j) + ")");
                }
                auto k = x.rng % 3;
                if (k == 1) {
                    std::reverse(names.begin(), names.end());
                }
                for (size_t j = names.size(); k == 2 && j > 1; --j) {
                    std::swap(names[j - 1], names[env.next() % j]);
                }
                static std::vector<std::unique_ptr<char[]>> gaps;
                for (auto const &n : names) {
                    clingo_symbol_t s = 0;
                    must(clingo_parse_term(n.c_str(), nullptr, nullptr, 1, &s), "parse_term");
                    gaps.emplace_back(new char[16 + env.next() % 200]);
                }
            }
            work();
            finish(O_OK, "ok", "");
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            violation("crash", "execution %d ends with status %d", i, st);
        }
        if (sh->outcome != O_OK && sh->outcome != O_VIOLATION) {
            core_cov_flush();
            _exit(0);
        }
        blocks_total += sh->steps;
        sim_now += sh->sim_ns;
        res[i] = {sh->outcome, sh->cls, sh->msg, sh->hash, {sh->ev, sh->ev + sh->ev_len}};
    }
    count(repeat_compared);
    if (res[0].outcome != res[1].outcome || res[0].cls != res[1].cls) {
        auto k = res[0].outcome == O_OK ? 1 : 0;
        violation("differs", "the same calls once more, with other contents of fresh memory, addresses and times: execution %d ends with %s: %s", k,
                  res[k].cls.c_str(), res[k].msg.c_str());
    }
    sh->outcome = O_NONE;
    if (res[0].hash != res[1].hash) {
        auto const &a = res[0].ev;
        auto const &b = res[1].ev;
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) {
            ++i;
        }
        auto name = [](std::vector<uint64_t> const &v, size_t i) -> std::string {
            // the last call up to there
            for (size_t j = std::min(i + 1, v.size()); j-- > 0;) {
                if (v[j] >= 0xA0000 && v[j] < 0xA0000 + static_cast<uint64_t>(fn_count)) {
                    return std::string(fn_names[v[j] - 0xA0000]) + " " + std::to_string(i - j);
                }
            }
            return "none";
        };
        violation("differs", "the same calls with other contents of fresh memory, addresses and times differ at event %zu (of %zu and %zu): calls %s and %s", i,
                  a.size(), b.size(), name(a, i).c_str(), name(b, i).c_str());
    }
    if (res[0].outcome == O_VIOLATION) {
        // wrong in both: other properties
        finish(O_OK, "ok", "");
    }
}
void c20() {
    auto p = shapes();
    p.max_body = std::max(p.max_body, 3);
    p.max_integrity = 4;
    p.obs = F(3) == 0;
    auto spec = gen_spec(p);
    SolveCfg cfg;
    gen_cfg(cfg, 2);
    OptParams op;
    op.threads = cfg.threads;
    auto o = gen_opts(op);
    o.shift = true;
    o.kv.emplace_back("shift-constraints", "yes");
    describe(spec, o, cfg);
    count(shift_runs);
    World w(&spec, o);
    start(w, cfg);
    w.load_all();
    auto r = w.solve();
    w.check_answers(r, {});
    w.destroy();
    mark_nontrivial(!spec.bodies.empty());
}
} // namespace

PropDef const props[] = {
    {"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07},
    {"C08", c08}, {"C09", c09}, {"C15", c15}, {"C18", c18},
    {"C19", c19}, {"C23", c23}, {"C17", c17}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C16", c16}, {"C20", c20}, {"C24", c24},
};
size_t const num_props = sizeof(props) / sizeof(props[0]);
