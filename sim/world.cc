#include "world.hh"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <sys/wait.h>
#include <unistd.h>

std::string last_error() {
    auto const *m = clingo_error_message();
    return m != nullptr ? m : "";
}
bool is_trivial(Con const &c) { return c.u == c.v; }
void sample_add(char const *fmt, ...) {
    auto n = strlen(sh->sample);
    if (n + 1 >= sizeof sh->sample) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->sample + n, sizeof sh->sample - n, fmt, ap);
    va_end(ap);
}

// ---------------------------------------------------------------- options
std::string TOpts::str() const {
    std::string r;
    for (auto const &[k, v] : kv) {
        r += (r.empty() ? "" : " ") + k + "=" + v;
    }
    return r;
}
TOpts gen_opts(OptParams const &p, int S) {
    static char const *const names[6] = {"no", "inverse", "partial", "partial+", "zero", "full"};
    static int const pick[16] = {0, 5, 1, 2, 3, 4, 0, 5, 4, 3, 2, 1, 0, 5, 4, 0};
    TOpts o;
    auto mode = pick[draw(S, 16)];
    mode = std::max(mode, p.min_mode);
    if (mode != 0 || draw(S, 4) == 1) {
        o.kv.emplace_back("propagate", names[mode]);
        o.mode = mode;
    }
    auto per_thread = [&]() { return p.threads > 1 && chance(S, static_cast<uint32_t>(p.per_thread)); };
    if (per_thread()) {
        auto t = static_cast<int>(draw(S, static_cast<uint32_t>(p.threads)));
        auto m = std::max(static_cast<int>(draw(S, 6)), p.min_mode);
        o.kv.emplace_back("propagate", std::string(names[m]) + "," + std::to_string(t));
        o.tmode[t] = m;
    }
    if (chance(S, 4)) {
        o.root = 1 + draw(S, 5);
        o.kv.emplace_back("propagate-root", std::to_string(o.root));
    }
    if (per_thread()) {
        auto t = static_cast<int>(draw(S, static_cast<uint32_t>(p.threads)));
        o.troot[t] = draw(S, 5);
        o.kv.emplace_back("propagate-root", std::to_string(o.troot[t]) + "," + std::to_string(t));
    }
    if (chance(S, 5)) {
        static uint64_t const b[7] = {1, 3, 10, 30, 100, 1000, BUDGET_ALL};
        o.budget = b[draw(S, 7)];
        o.kv.emplace_back("propagate-budget", std::to_string(o.budget));
    }
    if (per_thread()) {
        static uint64_t const b[7] = {0, 2, 10, 30, 100, 1000, BUDGET_ALL};
        auto t = static_cast<int>(draw(S, static_cast<uint32_t>(p.threads)));
        o.tbudget[t] = b[draw(S, 7)];
        o.kv.emplace_back("propagate-budget", std::to_string(o.tbudget[t]) + "," + std::to_string(t));
    }
    if (p.mutexes && chance(S, 3)) {
        o.mutex = 1 + static_cast<int>(draw(S, 4));
        auto v = std::to_string(o.mutex);
        auto cut = draw(S, 4);
        if (cut > 0) {
            o.cutoff = cut == 1 ? 3 : cut == 2 ? 20 : 200;
            v += "," + std::to_string(o.cutoff);
        }
        o.kv.emplace_back("add-mutexes", v);
    }
    if (chance(S, 2)) {
        static char const *const s[5] = {"no", "weight", "weight-reversed", "potential", "potential-reversed"};
        auto mode = static_cast<int>(draw(S, 5));
        std::string v = s[mode];
        if (per_thread()) {
            auto t = static_cast<int>(draw(S, static_cast<uint32_t>(p.threads)));
            v += "," + std::to_string(t);
            o.tsort[t] = mode;
        } else {
            o.sort = mode;
        }
        o.kv.emplace_back("sort-edges", v);
    }
    if (p.heuristic && chance(S, 4)) {
        o.decide = 1 + static_cast<int>(draw(S, 2));
        o.kv.emplace_back("dl-heuristic", o.decide == 1 ? "min" : "max");
    }
    if (p.components && chance(S, 4)) {
        o.cc = draw(S, 2) == 1;
        o.kv.emplace_back("compute-components", o.cc ? "yes" : "no");
    }
    return o;
}
void gen_cfg(SolveCfg &cfg, int max_threads, int S) {
    cfg.threads = max_threads > 1 && chance(S, 3) ? 2 + static_cast<int>(draw(S, static_cast<uint32_t>(max_threads - 1))) : 1;
    cfg.learn = draw(S, 4) == 3 ? 2 : static_cast<int>(draw(S, 2));
    cfg.share = cfg.threads > 1 ? static_cast<int>(draw(S, 4)) : 0;
    cfg.restart = draw(S, 3) == 2 ? 2 + static_cast<int>(draw(S, 4)) : 0;
    if (draw(S, 4) == 3) {
        cfg.forget = 2;
        cfg.forget_max = 60;
    }
    if (draw(S, 5) == 4) {
        cfg.hop = 2 + static_cast<int>(draw(S, 6));
        cfg.hop_max = 60;
    }
    cfg.up_before_init = draw(S, 4) != 3;
    cfg.merge = static_cast<int>(draw(S, 3));
    cfg.flip = draw(S, 3) == 2 ? 3 : 0;
    cfg.shuffle = draw(S, 3) == 2;
}

// ---------------------------------------------------------------- life cycle
bool World::may_fail() const { return tolerant && (faults.fired() || add_failed || bad_input); }
bool World::check_ok(bool ok, char const *what) {
    if (ok) {
        return true;
    }
    auto e = last_error();
    auto code = clingo_error_code();
    log("%s failed: %s", what, e.c_str());
    if (!may_fail()) {
        violation("unexpected-error", "%s%s failed: %s", tag.c_str(), what, e.c_str());
    }
    if (failed.empty()) {
        failed = what;
    }
    error = e;
    error_code = code;
    count(errors_expected);
    return false;
}
bool World::create() {
    bool ok = false;
    {
        InRepo r(CB_CLIENT);
        ok = clingodl_create(&th);
    }
    if (!check_ok(ok, "clingodl_create")) {
        th = nullptr;
        return false;
    }
    return true;
}
bool World::configure() {
    for (auto const &[k, v] : opts.kv) {
        log("%sconfigure %s=%s", tag.c_str(), k.c_str(), v.c_str());
        bool ok = false;
        {
            InRepo r(CB_CLIENT);
            ok = clingodl_configure(th, k.c_str(), v.c_str());
        }
        if (!check_ok(ok, "clingodl_configure")) {
            return false;
        }
    }
    return true;
}
bool World::attach(int stream) {
    if (c == nullptr) {
        c = sim_control_new(stream);
    }
    bool ok = false;
    {
        InRepo r(CB_CLIENT);
        ok = clingodl_register(th, c->real);
    }
    if (!check_ok(ok, "clingodl_register")) {
        return false;
    }
    install();
    return true;
}
namespace {
struct RewriteData {
    World *w;
    clingodl_theory_t *th;
    clingo_program_builder_t *b;
};
bool add_cb(clingo_ast_t *ast, void *data) {
    OutRepo o;
    auto &d = *static_cast<RewriteData *>(data);
    if (d.w->add_fails > 0 && --d.w->add_fails == 0) {
        d.w->add_failed = true;
        count(fault_callback_error);
        clingo_set_error(clingo_error_logic, "client failure");
        log("  FAULT: the client refuses a statement");
        return false;
    }
    return clingo_program_builder_add(d.b, ast);
}
bool rewrite_cb(clingo_ast_t *ast, void *data) {
    auto *d = static_cast<RewriteData *>(data);
    count(rewrites);
    InRepo r(CB_AST);
    return clingodl_rewrite_ast(d->th, ast, add_cb, d);
}
} // namespace
bool World::add_text(std::string const &text) {
    clingo_program_builder_t *b = nullptr;
    must(clingo_program_builder_init(c->real, &b), "program_builder");
    must(clingo_program_builder_begin(b), "builder_begin");
    RewriteData d{this, th, b};
    bool ok = clingo_ast_parse_string(text.c_str(), rewrite_cb, &d, c->real, nullptr, nullptr, 100);
    std::string e;
    auto code = clingo_error_code();
    if (!ok) {
        e = last_error();
    }
    must(clingo_program_builder_end(b), "builder_end");
    if (!ok) {
        clingo_set_error(code, e.c_str());
    }
    return check_ok(ok, "clingodl_rewrite_ast");
}
bool World::ground(std::string const &part) {
    clingo_part_t p{part.c_str(), nullptr, 0};
    must(clingo_control_ground(c->real, &p, 1, nullptr, nullptr), "ground");
    bool ok = false;
    {
        InRepo r(CB_CLIENT);
        ok = clingodl_prepare(th, c->real);
    }
    return check_ok(ok, "clingodl_prepare");
}
bool World::load(int s) {
    auto part = s == 0 ? std::string("base") : "s" + std::to_string(s);
    auto text = (s == 0 ? std::string() : "#program " + part + ".\n") + spec->text[static_cast<size_t>(s)];
    log("%sstep %d:\n%s", tag.c_str(), s, text.c_str());
    if (!add_text(text) || !ground(part)) {
        return false;
    }
    step = s;
    return true;
}
bool World::load_all(bool) {
    for (int s = 0; s < spec->steps; ++s) {
        if (!load(s)) {
            return false;
        }
    }
    return true;
}
void World::destroy(bool theory_first) {
    auto free_theory = [this]() {
        if (th != nullptr) {
            bool ok = false;
            {
                InRepo r(CB_CLIENT);
                ok = clingodl_destroy(th);
            }
            if (!ok) {
                violation("unexpected-error", "clingodl_destroy failed: %s", last_error().c_str());
            }
            th = nullptr;
        }
    };
    if (theory_first) {
        free_theory();
    }
    if (c != nullptr) {
        sim_control_free(c);
        c = nullptr;
    }
    free_theory();
}
void World::collect(bool) {
    std::vector<LCon> now;
    if (!read_theory_atoms(*c, now)) {
        cons_ok = false;
        return;
    }
    for (auto const &l : now) {
        bool have = false;
        for (auto const &o : cons) {
            have = have || (o.lit == l.lit && o.c == l.c && o.strict == l.strict);
        }
        if (!have) {
            cons.push_back(l);
            log("  constraint %s%s on literal %d", con_str(l.c).c_str(), l.strict ? " (body)" : "", l.lit);
        }
    }
}
void World::install() {
    c->hooks.post_init = [this](SimControl &) {
        collect(true);
        by_lit.clear();
        for (size_t i = 0; i < cons.size(); ++i) {
            by_lit.emplace(cons[i].lit, i);
            if (cons[i].strict) {
                by_lit.emplace(-cons[i].lit, i);
            }
        }
        if (ck_clauses) {
            for (auto const &[t, lits] : all_clauses) {
                if (t == nullptr) {
                    clause_follows(nullptr, lits);
                }
            }
            if (big) {
                all_clauses.clear();
            } else {
                via_rebuild();
            }
        }
        if (ck_playback) {
            fork_playback();
        }
    };
    c->hooks.clause = [this](SThread *t, std::vector<int> const &l, int st, bool init) { on_clause(t, l, st, init); };
    c->hooks.fixpoint = [this](SThread &t) { on_fixpoint(t); };
    if (ck_decide) {
        c->hooks.decide = [this](SThread &t, int f, int r) { on_decide(t, f, r); };
    }
    if (ck_limits) {
        c->hooks.propagating = [this](SThread &t) {
            if (opts.get_sort(t.id) >= 3 && opts.get_mode(t.id) == M_NO && !opts.rdl) {
                values_before[t.id] = values_now(t);
            }
        };
    }
    c->on_model = [this](ModelView &mv) { return on_model(mv); };
    c->on_stats = [this](SimStats &st, SimStats &ac) {
        bool ok = false;
        {
            InRepo r(CB_EVENT);
            ok = clingodl_on_statistics(th, reinterpret_cast<clingo_statistics_t *>(&st),
                                        reinterpret_cast<clingo_statistics_t *>(&ac));
        }
        if (!ok) {
            return false;
        }
        if (client_stats) {
            return client_stats(*this, st, ac);
        }
        return true;
    };
}
SolveResult World::solve(std::vector<int> const &assumptions) {
    models.clear();
    keys.clear();
    model_failed = false;
    auto r = c->solve(assumptions);
    if (ck_playback) {
        join_playback();
    }
    if (!r.ok && !may_fail()) {
        violation("unexpected-error", "%ssolving failed: %s", tag.c_str(), r.error.c_str());
    }
    if (!r.ok) {
        count(errors_expected);
        failed = "solve";
        error = r.error;
        error_code = c->error_code;
    }
    return r;
}
int World::plit_of(std::string const &name) const {
    for (auto const &s : c->syms) {
        if (s.name == name) {
            return s.plit;
        }
    }
    return 0;
}
void World::check_answers(SolveResult const &r, std::map<int, int> const &fixed, char const *cls) {
    if (!r.ok) {
        return;
    }
    auto expect = brute_force(*spec, step, fixed);
    count(answers_checked, expect.size() + 1);
    for (auto const &k : keys) {
        if (expect.count(k) == 0) {
            violation(cls, "%sthe reported solution {%s} is not a solution of the program (step %d)", tag.c_str(), k.c_str(), step);
        }
    }
    bool complete = (r.bits & RES_EXHAUSTED) != 0;
    if (complete) {
        for (auto const &k : expect) {
            if (keys.count(k) == 0) {
                violation(cls, "%sthe solution {%s} is lost (step %d, %zu of %zu solutions reported)", tag.c_str(),
                          k.c_str(), step, keys.size(), expect.size());
            }
        }
        bool sat = (r.bits & RES_SAT) != 0;
        if (sat != !expect.empty()) {
            violation(cls, "%sreported %s", tag.c_str(), sat ? "satisfiable" : "unsatisfiable");
        }
    }
}

// ---------------------------------------------------------------- models
void World::enforced(SThread &t, std::vector<Con> &out) const {
    for (auto const &l : cons) {
        auto v = t.value(l.lit);
        if (v == 1) {
            out.push_back(l.c);
        } else if (v == -1 && l.strict) {
            out.push_back(negate(l.c));
        }
    }
}
Values World::values_of(ModelView &mv) {
    Values vals;
    for (auto s : mv.extended) {
        clingo_symbol_type_t ty = 0;
        char const *name = nullptr;
        clingo_symbol_t const *as = nullptr;
        size_t n = 0;
        ty = clingo_symbol_type(s);
        if (ty != clingo_symbol_type_function || !clingo_symbol_name(s, &name) || strcmp(name, "dl") != 0 ||
            !clingo_symbol_arguments(s, &as, &n) || n != 2) {
            violation("values", "%sunexpected term %s in the solution", tag.c_str(), sym_str(s).c_str());
        }
        int v = vid(sym_str(as[0]));
        int64_t x = 0;
        if (!opts.rdl) {
            int y = 0;
            if (!clingo_symbol_number(as[1], &y)) {
                violation("values", "%snumber expected in %s", tag.c_str(), sym_str(s).c_str());
            }
            x = static_cast<int64_t>(y) * wscale;
        } else {
            char const *str = nullptr;
            char *end = nullptr;
            if (!clingo_symbol_string(as[1], &str)) {
                violation("values", "%sstring expected in %s", tag.c_str(), sym_str(s).c_str());
            }
            auto d = strtod(str, &end);
            if (*end != '\0') {
                violation("values", "%snumber expected in %s", tag.c_str(), sym_str(s).c_str());
            }
            x = llround(d * static_cast<double>(wscale));
        }
        if (!vals.emplace(v, x).second) {
            violation("values", "%stwo values for %s", tag.c_str(), vname(v).c_str());
        }
    }
    return vals;
}
static std::string vals_str(Values const &v) {
    std::string r;
    for (auto const &[k, x] : v) {
        r += " " + vname(k) + "=" + std::to_string(real_mode ? static_cast<double>(x) / static_cast<double>(wscale) : static_cast<double>(x));
    }
    return r;
}
// in real mode printed values are rounded to six digits
static bool holds_tol(Con const &c, Values const &vals) {
    if (!real_mode) {
        return holds(c, vals);
    }
    // a non-strict constraint may be missed by the rounding of the output
    auto tol = static_cast<int64_t>(static_cast<double>(wscale) * 4e-6);
    Con d = c;
    switch (c.rel) {
        case LE: d.w += tol; return holds(d, vals);
        case GE: d.w -= tol; return holds(d, vals);
        case LT: d.w += 0; return holds(d, vals);
        case GT: d.w -= 0; return holds(d, vals);
        case EQ: {
            Con a = c, b = c;
            a.rel = LE;
            b.rel = GE;
            a.w += tol;
            b.w -= tol;
            return holds(a, vals) && holds(b, vals);
        }
        default: return holds(c, vals);
    }
}
void World::check_values(SThread &t, Mdl const &m) {
    std::vector<Con> es;
    enforced(t, es);
    std::set<std::string> atoms;
    for (auto const &y : c->syms) {
        if (!big && (y.plit == 0 || t.value(c->plit(y.plit)) == 1)) {
            atoms.insert(y.name);
        }
    }
    // independently of the theory atoms
    auto hs = fired_heads(*spec, step, atoms);
    for (auto const &b : spec->bodies) {
        if (b.step <= step && b.obs >= 0) {
            bool on = atoms.count(spec->atoms[static_cast<size_t>(b.obs)].name) != 0;
            hs.push_back(on ? b.c : negate(b.c));
        }
    }
    std::set<int> vars;
    for (auto const *list : {&es, &hs}) {
        for (auto const &con : *list) {
            count(values_compared);
            if (is_trivial(con)) {
                if (!holds_tol(con, {})) {
                    violation("values", "%sthe solution {%s} enforces the unsatisfiable constraint %s", tag.c_str(),
                              m.key.c_str(), con_str(con).c_str());
                }
                continue;
            }
            for (int v : {con.u, con.v}) {
                if (v != 0) {
                    vars.insert(v);
                    if (m.vals.count(v) == 0) {
                        violation("values", "%svariable %s of the enforced constraint %s has no value (solution {%s})",
                                  tag.c_str(), vname(v).c_str(), con_str(con).c_str(), m.key.c_str());
                    }
                }
            }
            if (!holds_tol(con, m.vals)) {
                violation("values", "%sthe constraint %s is enforced but violated by%s (solution {%s})", tag.c_str(),
                          con_str(con).c_str(), vals_str(m.vals).c_str(), m.key.c_str());
            }
        }
    }
    for (auto const &[v, x] : m.vals) {
        if (vars.count(v) == 0) {
            violation("values", "%svariable %s has a value but is in no enforced constraint (solution {%s})", tag.c_str(),
                      vname(v).c_str(), m.key.c_str());
        }
    }
}
bool World::on_model(ModelView &mv) {
    if (pb.active) { // in isolation only the values matter
        InRepo r(CB_EVENT);
        clingodl_on_model(th, reinterpret_cast<clingo_model_t *>(&mv));
        return true;
    }
    bool ok = false;
    {
        InRepo r(CB_EVENT);
        ok = clingodl_on_model(th, reinterpret_cast<clingo_model_t *>(&mv));
    }
    if (!ok) {
        model_failed = true;
        c->set_error_from_clingo();
        return false;
    }
    Mdl m;
    m.key = model_key(*spec, step, *c, *mv.t);
    m.thread = mv.t->id;
    m.vals = values_of(mv);
    log("  model {%s}%s", m.key.c_str(), vals_str(m.vals).c_str());
    keys.insert(m.key);
    if (ck_models && cons_ok) {
        check_values(*mv.t, m);
    }
    if (ck_assign) {
        check_assignment_api(*mv.t, &m.vals);
    }
    if (cons_ok) {
        // canonical form of what is enforced; the side of disequalities is chosen by the values
        std::vector<Con> es;
        enforced(*mv.t, es);
        std::set<std::string> edges;
        for (auto con : es) {
            if (is_trivial(con)) {
                continue;
            }
            if (con.rel == NE) {
                Con lt = con;
                lt.rel = LT;
                con.rel = holds(lt, m.vals) ? LT : GT;
            }
            std::vector<DEdge> v;
            edges_of(con, v);
            for (auto const &e : v) {
                edges.insert(vname(e.from) + "," + vname(e.to) + "," + std::to_string(e.w));
            }
        }
        for (auto const &e : edges) {
            m.enforced += e + ";";
        }
    }
    models.push_back(m);
    bool goon = true;
    if (client_model) {
        goon = client_model(*this, models.back());
        if (!goon) {
            count(fault_client_stop);
        }
    }
    return goon;
}
// iteration, lookup and values of the assignment interface
Values World::check_assignment_api(SThread &t, Values const *vals) {
    count(assignment_walks);
    auto id = static_cast<uint32_t>(t.id);
    Values seen;
    size_t idx = 0;
    auto pos = [](size_t i) { return std::to_string(i); };
    {
        InRepo r(CB_EVENT);
        clingodl_assignment_begin(th, id, &idx);
    }
    std::set<size_t> indices;
    for (size_t n = 0;; ++n) {
        bool ok = false;
        {
            InRepo r(CB_EVENT);
            ok = clingodl_assignment_next(th, id, &idx);
        }
        if (!ok) {
            break;
        }
        if (n > 10000 || !indices.insert(idx).second) {
            violation("assignment", "%siteration visits index %zu twice", tag.c_str(), idx);
        }
        bool has = false;
        clingo_symbol_t sym = 0;
        clingodl_value_t v{};
        size_t back = 0;
        bool found = false;
        {
            InRepo r(CB_EVENT);
            has = clingodl_assignment_has_value(th, id, idx);
            sym = clingodl_get_symbol(th, idx);
            if (has) {
                clingodl_assignment_get_value(th, id, idx, &v);
            }
            found = clingodl_lookup_symbol(th, sym, &back);
        }
        auto name = sym_str(sym);
        if (!has) {
            violation("assignment", "%siteration visits %s which has no value", tag.c_str(), name.c_str());
        }
        if (!found || back != idx) {
            violation("assignment", "%slookup of %s gives index %zu instead of %zu", tag.c_str(), name.c_str(), back, idx);
        }
        auto [it, ins] = index_of.emplace(name, idx);
        if (!ins && it->second != idx) {
            violation("assignment", "%sindex of %s changed from %zu to %zu", tag.c_str(), name.c_str(), it->second, idx);
        }
        int64_t x = 0;
        if (v.type == clingodl_value_type_int && !opts.rdl) {
            x = v.int_number;
            x *= wscale;
        } else if (v.type == clingodl_value_type_double && opts.rdl) {
            // rounded like the printed values
            char b[64];
            snprintf(b, sizeof b, "%f", v.double_number);
            x = llround(strtod(b, nullptr) * static_cast<double>(wscale));
        } else {
            violation("assignment", "%svalue of type %d for %s", tag.c_str(), v.type, name.c_str());
        }
        if (!seen.emplace(vid(name), x).second) {
            violation("assignment", "%sthe variable %s has two indices", tag.c_str(), name.c_str());
        }
    }
    // after the end iteration stays at the end for a fresh walk only; known variables without value
    for (auto const &[name, i] : index_of) {
        bool has = false;
        size_t back = 0;
        clingo_symbol_t sym = 0;
        bool found = false;
        {
            InRepo r(CB_EVENT);
            has = clingodl_assignment_has_value(th, id, i);
            sym = clingodl_get_symbol(th, i);
            found = clingodl_lookup_symbol(th, sym, &back);
        }
        if (sym_str(sym) != name || !found || back != i) {
            violation("assignment", "%sindex %zu of %s is not stable", tag.c_str(), i, name.c_str());
        }
        if (has != (seen.count(vid(name)) != 0)) {
            violation("assignment", "%siteration and has_value disagree on %s", tag.c_str(), name.c_str());
        }
    }
    if (vals != nullptr && seen != *vals) {
        violation("assignment", "%sthe assignment%s differs from the shown values%s (thread %d, index %s)", tag.c_str(),
                  vals_str(seen).c_str(), vals_str(*vals).c_str(), t.id, pos(idx).c_str());
    }
    return seen;
}
// Between searches only what holds on the top level gives variables values.
void World::check_between(SThread &t) {
    auto seen = check_assignment_api(t, nullptr);
    if (!cons_ok || !t.lim.empty()) {
        return;
    }
    count(between_checked);
    std::vector<Con> es;
    enforced(t, es);
    for (auto const &l : cons) {
        // there are constraints on further literals that were not propagated if the search was stopped
        if (l.c.rel == EQ || l.c.rel == NE) {
            es.push_back(l.c);
        }
    }
    std::set<int> vars;
    for (auto const &con : es) {
        vars.insert(con.u);
        vars.insert(con.v);
    }
    for (auto const &[v, x] : seen) {
        if (vars.count(v) == 0) {
            violation("not-undone", "%sthread %d: the variable %s has the value %ld after the search has ended although it is in no constraint enforced at level 0",
                      tag.c_str(), t.id, vname(v).c_str(), static_cast<long>(x));
        }
    }
}

// ---------------------------------------------------------------- fixpoints
void World::on_fixpoint(SThread &t) {
    if (!cons_ok || (!ck_fixpoint && !ck_strength)) {
        return;
    }
    std::vector<DEdge> es;
    std::string names;
    for (auto const &l : cons) {
        auto v = t.value(l.lit);
        Con con = l.c;
        if (v == 0 || (v == -1 && !l.strict)) {
            continue;
        }
        if (v == -1) {
            con = negate(con);
        }
        if (disjunctive(con)) {
            continue;
        }
        edges_of(con, es);
        names += " " + con_str(con);
    }
    if (ck_fixpoint) {
        count(fixpoints_checked);
        if (!consistent(es)) {
            violation("missed-conflict",
                      "%sthread %d continues on level %u although the enforced constraints are inconsistent:%s", tag.c_str(),
                      t.id, t.level(), names.c_str());
        }
    }
    if (!ck_strength || !consistent(es)) {
        return;
    }
    auto mode = opts.get_mode(t.id);
    bool full = mode == M_FULL || t.level() < opts.get_root(t.id) || opts.get_budget(t.id) >= BUDGET_ALL;
    bool zero = mode == M_ZERO;
    bool inverse = mode >= M_INVERSE;
    if (!full && !zero && !inverse) {
        return;
    }
    Dist d(es);
    auto check = [&](Con const &con, int lit) { // con would be enforced if lit became true
        if (disjunctive(con) || is_trivial(con)) {
            return;
        }
        std::vector<DEdge> v;
        edges_of(con, v);
        for (auto const &e : v) {
            count(strength_checked);
            auto const *back = d.get(e.to, e.from);
            if (full && back != nullptr && *back + e.w < 0) {
                violation("missed-propagation",
                          "%sthread %d, level %u, mode %d root %lu: literal %d for %s is undecided although it contradicts%s",
                          tag.c_str(), t.id, t.level(), mode, static_cast<unsigned long>(opts.get_root(t.id)), lit,
                          con_str(con).c_str(), names.c_str());
            }
            if (zero) {
                auto const *a = e.to == 0 ? nullptr : d.get(e.to, 0);
                auto const *b = e.from == 0 ? nullptr : d.get(0, e.from);
                int64_t x = 0;
                bool have = (e.to == 0 || a != nullptr) && (e.from == 0 || b != nullptr);
                x = (a != nullptr ? *a : 0) + (b != nullptr ? *b : 0);
                if (have && x + e.w < 0) {
                    violation("missed-propagation",
                              "%sthread %d, level %u, mode zero: literal %d for %s is undecided although it contradicts "
                              "through zero:%s",
                              tag.c_str(), t.id, t.level(), lit, con_str(con).c_str(), names.c_str());
                }
            }
            if (inverse) {
                for (auto const &f : es) {
                    if (f.from == e.to && f.to == e.from && f.w + e.w < 0) {
                        violation("missed-propagation",
                                  "%sthread %d, level %u, mode %d: literal %d for %s is undecided although an opposed "
                                  "constraint is enforced:%s",
                                  tag.c_str(), t.id, t.level(), mode, lit, con_str(con).c_str(), names.c_str());
                    }
                }
            }
        }
    };
    for (auto const &l : cons) {
        if (t.value(l.lit) == 0) {
            check(l.c, l.lit);
            if (l.strict) {
                check(negate(l.c), -l.lit);
            }
        }
    }
}

// ---------------------------------------------------------------- limits
// Edges that are added with a literal; false if that is not known.
bool World::lit_edges(int lit, std::vector<DEdge> &out) {
    auto r = by_lit.equal_range(lit);
    for (auto it = r.first; it != r.second; ++it) {
        auto const &l = cons[it->second];
        auto con = l.lit == lit ? l.c : negate(l.c);
        // what is enforced by helper literals may come at another time
        if (disjunctive(con) || (l.strict && con.rel == EQ)) {
            return false;
        }
        if (!is_trivial(con)) {
            edges_of(con, out);
        }
    }
    return r.first != r.second;
}
// What a thread may derive depends on its own options and the level; conflicts are found in the configured order.
void World::clause_limits(SThread &t, std::vector<int> const &lits, int status) {
    auto mode = opts.get_mode(t.id);
    if (!cons_ok || mode == M_FULL || opts.get_budget(t.id) > 0 || t.level() < opts.get_root(t.id)) {
        return;
    }
    std::string s;
    for (int l : lits) {
        s += " " + std::to_string(l);
    }
    auto edges = [&](int lit, std::vector<DEdge> &out) { return lit_edges(lit, out); };
    count(limits_checked);
    bool conflict = status == AS_CONFLICT || status == AS_PENDING_CONFLICT;
    if (!conflict) {
        if (mode == M_NO) {
            violation("limit", "%sthread %d adds the clause%s, which is no conflict, on level %u although propagation is disabled from level %lu on",
                      tag.c_str(), t.id, s.c_str(), t.level(), static_cast<unsigned long>(opts.get_root(t.id)));
        }
        if (mode == M_INVERSE && std::set<int>(lits.begin(), lits.end()).size() > 2) {
            violation("limit", "%sthread %d adds the clause%s, which is no conflict, on level %u in mode inverse", tag.c_str(), t.id,
                      s.c_str(), t.level());
        }
        return;
    }
    auto sort = opts.get_sort(t.id);
    if (mode != M_NO || opts.get_root(t.id) > 0 || opts.rdl || t.level() == 0 || sort == 0) {
        return;
    }
    // what the thread was told before this call (not all of it, facts are left out)
    std::set<int> batch(t.batch.begin(), t.batch.end());
    std::vector<DEdge> before;
    auto known = [&](int l) { return batch.count(l) == 0 && t.value(l) == 1 && !edges(l, before) && by_lit.count(l) != 0; };
    bool skip = false;
    std::set<int> seen;
    for (auto const &d : t.delivered) {
        for (int x : d) {
            if (seen.insert(x).second) {
                skip = known(x) || skip;
            }
        }
    }
    std::vector<DEdge> now;
    for (int x : batch) {
        if (by_lit.count(x) != 0) {
            skip = !edges(x, now) || skip;
        }
    }
    if (skip || !consistent(before)) {
        return;
    }
    // potentials are the negated values; those of variables without value are not known relative to the others
    auto const &before_vals = values_before[t.id];
    auto val = [&](int v) {
        auto it = before_vals.find(v);
        return it != before_vals.end() ? it->second : 0;
    };
    if (sort >= 3) {
        for (auto const &e : now) {
            if ((e.from != 0 && before_vals.count(e.from) == 0) || (e.to != 0 && before_vals.count(e.to) == 0)) {
                return;
            }
        }
    }
    auto key = [&](DEdge const &e) {
        auto x = sort <= 2 ? e.w : e.w - val(e.from) + val(e.to);
        return sort == 1 || sort == 3 ? x : -x;
    };
    std::sort(now.begin(), now.end(), [&](DEdge const &a, DEdge const &b) { return key(a) < key(b); });
    size_t i = 0;
    auto prefix = before;
    while (i < now.size()) {
        auto k = key(now[i]);
        for (; i < now.size() && key(now[i]) == k; ++i) {
            prefix.push_back(now[i]);
        }
        if (!consistent(prefix)) {
            break;
        }
    }
    if (i == now.size()) {
        return; // nothing is left out
    }
    count(order_checked);
    if (sort >= 3) {
        count(order_potential);
    }
    std::vector<DEdge> rest;
    for (int l : lits) {
        if (batch.count(-l) == 0) {
            continue;
        }
        std::vector<DEdge> own;
        if (by_lit.count(-l) == 0 || !edges(-l, own)) {
            continue; // a helper literal
        }
        bool in = false;
        for (auto const &e : own) {
            in = in || key(e) <= key(prefix.back());
        }
        if (!in) {
            violation("order", "%sthread %d reports the conflict%s although constraints that come first in the configured order are already "
                               "inconsistent without %d",
                      tag.c_str(), t.id, s.c_str(), -l);
        }
    }
}

// ---------------------------------------------------------------- clauses
// A clause over constraints only follows if what its literals exclude contradicts what holds anyway.
void World::clause_follows(SThread *t, std::vector<int> const &lits) {
    if (!cons_ok) {
        return;
    }
    auto &T = t != nullptr ? *t : *c->threads[0];
    std::vector<DEdge> es;
    auto add = [&](int lit, bool &any) {
        auto r = by_lit.equal_range(lit);
        for (auto it = r.first; it != r.second; ++it) {
            auto const &l = cons[it->second];
            Con con = l.c;
            if (l.lit != lit) {
                con = negate(con);
            }
            if (disjunctive(con)) {
                return false;
            }
            if (is_trivial(con) && !holds(con, {})) {
                return false;
            }
            edges_of(con, es);
            any = true;
        }
        return true;
    };
    bool any = false;
    for (int l : lits) {
        if ((T.fixed(l) && T.value(l) == 1) || abs(l) == 1) {
            return;
        }
        bool one = false;
        if (!add(-l, one) || !one) {
            return; // not only about constraints (the library's own literals stand for constraints, too)
        }
    }
    for (auto const &con : cons) {
        for (int l : {con.lit, -con.lit}) {
            if (T.fixed(l) && T.value(l) == 1 && (l == con.lit || con.strict)) {
                add(l, any);
            }
        }
    }
    count(clauses_decided);
    if (consistent(es)) {
        std::string s, w;
        for (int l : lits) {
            s += " " + std::to_string(l);
        }
        for (auto const &l : cons) {
            for (int x : lits) {
                if (abs(l.lit) == abs(x)) {
                    w += " " + con_str(l.c) + "[" + std::to_string(l.lit) + "]";
                }
            }
        }
        violation("clause-unsound", "%sthe clause%s given %s excludes a consistent choice of constraints:%s", tag.c_str(),
                  s.c_str(), t == nullptr ? "before search" : "during search", w.c_str());
    }
}
void World::on_clause(SThread *t, std::vector<int> const &lits, int status, bool init) {
    if (init) {
        if (max_init_clause > 0) {
            std::set<int> free;
            for (int l : lits) {
                if (!c->threads[0]->fixed(l)) {
                    free.insert(l);
                }
            }
            count(mutex_clauses);
            if (free.size() > max_init_clause) {
                violation("limit", "%sinitialization adds a clause with %zu literals although mutexes of at most size %zu are asked for",
                          tag.c_str(), free.size(), max_init_clause);
            }
        }
        if (ck_clauses) {
            all_clauses.emplace_back(nullptr, lits);
        }
        return;
    }
    if (ck_limits) {
        clause_limits(*t, lits, status);
    }
    if (!ck_clauses) {
        return;
    }
    count(clauses_checked);
    std::string s;
    for (int l : lits) {
        s += " " + std::to_string(l);
    }
    // during propagation clauses are reasons or conflicts
    if (status == AS_FREE) {
        violation("clause-status", "%sthread %d adds the clause%s which is neither unit nor conflicting", tag.c_str(), t->id,
                  s.c_str());
    }
    if (status == AS_SAT || status == AS_TAUT) {
        // harmless for soundness but no conflict or propagation was there to report
        violation("clause-status", "%sthread %d adds the clause%s which is already satisfied", tag.c_str(), t->id, s.c_str());
    }
    clause_follows(t, lits);
    if (big) {
        return;
    }
    all_clauses.emplace_back(t, lits);
    via_clause(t, lits);
}
static bool lit_of(uint32_t sigma, uint32_t alpha, size_t nt, std::vector<int> const &vars, int lit, bool &known) {
    for (size_t i = 0; i < vars.size(); ++i) {
        if (vars[i] == abs(lit)) {
            bool v = i < nt ? ((sigma >> i) & 1) != 0 : ((alpha >> (i - nt)) & 1) != 0;
            return lit > 0 ? v : !v;
        }
    }
    known = false;
    return false;
}
void World::via_rebuild() {
    via = Viable{};
    via_pos = 0;
    if (!cons_ok) {
        return;
    }
    std::set<int> tv;
    for (auto const &l : cons) {
        if (abs(l.lit) != 1) {
            tv.insert(abs(l.lit));
        }
    }
    // some auxiliary variables may have been merged with theory atoms
    std::vector<int> av;
    for (int a : c->aux) {
        if (tv.count(a) == 0) {
            av.push_back(a);
        }
    }
    if (tv.size() > 12 || av.size() > 10) {
        count(skipped_oracle);
        return;
    }
    via.vars.assign(tv.begin(), tv.end());
    via.n_theory = tv.size();
    via.vars.insert(via.vars.end(), av.begin(), av.end());
    // consistent assignments of the theory atoms, extending partial ones
    std::vector<std::vector<LCon>> by(tv.size());
    std::vector<Con> base;
    for (auto const &l : cons) {
        if (abs(l.lit) == 1) {
            if (l.lit == 1) {
                base.push_back(l.c);
            } else if (l.strict) {
                base.push_back(negate(l.c));
            }
            continue;
        }
        for (size_t i = 0; i < via.n_theory; ++i) {
            if (via.vars[i] == abs(l.lit)) {
                by[i].push_back(l);
            }
        }
    }
    size_t total = 0;
    std::function<void(size_t, uint32_t)> rec = [&](size_t i, uint32_t sigma) {
        if (total > (1u << 15)) {
            return;
        }
        count(oracle_combinations);
        if (!consistent(base)) {
            return;
        }
        if (i == via.n_theory) {
            std::vector<uint32_t> al;
            for (uint32_t a = 0; a < (1u << av.size()); ++a) {
                al.push_back(a);
            }
            total += al.size();
            via.alive.emplace_back(sigma, std::move(al));
            return;
        }
        for (uint32_t v = 0; v < 2; ++v) {
            auto n = base.size();
            for (auto const &l : by[i]) {
                bool on = (l.lit > 0) == (v == 1);
                if (on) {
                    base.push_back(l.c);
                } else if (l.strict) {
                    base.push_back(negate(l.c));
                }
            }
            rec(i + 1, sigma | (v << i));
            base.resize(n);
        }
    };
    // with constraints without variables handled like others
    rec(0, 0);
    if (total > (1u << 15)) {
        via.alive.clear();
        count(skipped_oracle);
        return;
    }
    via.usable = true;
    // clauses of earlier steps depend on what their threads knew then
    auto cls = std::move(all_clauses);
    all_clauses.clear();
    for (auto &[t, lits] : cls) {
        if (t != nullptr) {
            continue;
        }
        via_clause(t, lits);
        all_clauses.emplace_back(t, std::move(lits));
    }
}
void World::via_clause(SThread *t, std::vector<int> const &lits) {
    if (!via.usable) {
        return;
    }
    // choices excluded on level 0 need not survive
    auto &T = t != nullptr ? *t : *c->threads[0];
    uint32_t ft = 0, fv = 0;
    for (size_t i = 0; i < via.n_theory; ++i) {
        int x = via.vars[i];
        if (T.fixed(x)) {
            ft |= 1u << i;
            if (T.value(x) == 1) {
                fv |= 1u << i;
            }
        }
    }
    bool known = true;
    for (auto it = via.alive.begin(); it != via.alive.end();) {
        if ((it->first & ft) != fv) {
            it = via.alive.erase(it);
            continue;
        }
        auto &al = it->second;
        al.erase(std::remove_if(al.begin(), al.end(),
                                [&](uint32_t a) {
                                    bool sat = false;
                                    for (int l : lits) {
                                        if (abs(l) == 1) {
                                            sat = sat || l == 1;
                                            continue;
                                        }
                                        bool k = true;
                                        bool v = lit_of(it->first, a, via.n_theory, via.vars, l, k);
                                        if (!k) {
                                            // other literals: fixed ones count with their value
                                            if (T.fixed(l)) {
                                                v = T.value(l) == 1;
                                            } else {
                                                known = false;
                                                v = true;
                                            }
                                        }
                                        sat = sat || v;
                                    }
                                    return !sat;
                                }),
                 al.end());
        if (al.empty()) {
            std::string s, w;
            for (int l : lits) {
                s += " " + std::to_string(l);
            }
            for (auto const &l : cons) {
                bool k = true;
                bool v = abs(l.lit) == 1 ? l.lit == 1 : lit_of(it->first, 0, via.n_theory, via.vars, l.lit, k);
                w += " " + std::string(v ? "" : "not ") + con_str(l.c) + "[" + std::to_string(l.lit) + "]";
            }
            violation("clause-unsound", "%sthe clause%s given %s excludes a consistent choice of constraints:%s", tag.c_str(),
                      s.c_str(), t == nullptr ? "before search" : "during search", w.c_str());
        }
        ++it;
    }
    if (!known) {
        count(unknown_aux);
    }
}

// the values of a thread at this instant
Values World::values_now(SThread &t) {
    auto id = static_cast<uint32_t>(t.id);
    size_t idx = 0;
    std::vector<std::pair<clingo_symbol_t, int>> vs;
    {
        InRepo r(CB_CLIENT);
        clingodl_assignment_begin(th, id, &idx);
        while (clingodl_assignment_next(th, id, &idx)) {
            clingodl_value_t v{};
            clingodl_assignment_get_value(th, id, idx, &v);
            vs.emplace_back(clingodl_get_symbol(th, idx), v.int_number);
        }
    }
    Values vals;
    for (auto &[s, v] : vs) {
        vals[vid(sym_str(s))] = v;
    }
    return vals;
}

// ---------------------------------------------------------------- heuristic
void World::on_decide(SThread &t, int fallback, int res) {
    count(decide_checked);
    if (res != fallback && res != -fallback) {
        violation("decide", "%sthread %d: literal %d returned for fallback %d", tag.c_str(), t.id, res, fallback);
    }
    if (opts.decide == 0) {
        violation("decide", "%sthe heuristic is consulted although it is disabled", tag.c_str());
    }
    bool carries = false;
    for (auto const &l : cons) {
        if (abs(l.lit) == abs(fallback) && !is_trivial(l.c)) {
            carries = true;
        }
    }
    if (c->aux.count(abs(fallback)) != 0) {
        return;
    }
    if (!carries && res != fallback) {
        violation("decide", "%sthread %d: sign of literal %d changed although it carries no constraint", tag.c_str(), t.id,
                  fallback);
    }
    if (!carries || !cons_ok) {
        return;
    }
    // literals with a single constraint, violated or satisfied by the current values (missing values count as zero)
    Values vals = values_now(t);
    // state of each side: 0 no constraint, 1 satisfied, 2 violated, 3 ambiguous
    auto state = [&](int lit) {
        int st = 0;
        int n = 0;
        for (auto const &l : cons) {
            if (is_trivial(l.c)) {
                continue;
            }
            Con con = l.c;
            if (l.lit == lit) {
            } else if (l.lit == -lit && l.strict) {
                con = negate(con);
            } else {
                continue;
            }
            if (con.rel == EQ || con.rel == NE) {
                return 3;
            }
            if (++n > 1) {
                return 3;
            }
            // values are reported relative to zero, which does not matter if no or both variables have one;
            // variables without values count as equal
            bool hu = con.u == 0 || vals.count(con.u) != 0, hv = con.v == 0 || vals.count(con.v) != 0;
            if (con.u != 0 && con.v != 0 && !hu && !hv) {
                st = holds(con, {{con.u, 0}, {con.v, 0}}) ? 1 : 2;
                continue;
            }
            if (!hu || !hv) {
                return 3;
            }
            st = holds(con, vals) ? 1 : 2;
        }
        return st;
    };
    int a = state(fallback), b = state(-fallback);
    if (a == 3 || b == 3) {
        return;
    }
    int expect = res;
    if (a == 2 && b != 2) {
        expect = opts.decide == 1 ? -fallback : fallback;
    } else if (b == 2 && a != 2) {
        expect = opts.decide == 1 ? fallback : -fallback;
    }
    // the zero of a component may have no value yet; then values are relative to zero
    if (res != expect) {
        violation("decide", "%sthread %d: '%s' answers %d for fallback %d (state %d, complement %d), expected %d;%s", tag.c_str(),
                  t.id, opts.decide == 1 ? "min" : "max", res, fallback, a, b, expect, vals_str(vals).c_str());
    }
}

// ---------------------------------------------------------------- isolation
void World::fork_playback() {
    auto n = c->threads.size();
    memset(sh->tr_len, 0, sizeof sh->tr_len);
    pb.record = false;
    fflush(stdout);
    for (size_t t = 0; t < n && n > 1; ++t) {
        int fd[2];
        CHECK_INTERNAL(pipe(fd) == 0);
        auto pid = fork();
        CHECK_INTERNAL(pid >= 0);
        if (pid == 0) {
            close(fd[1]);
            for (auto &k : kids) {
                close(k.second);
            }
            char b = 0;
            while (read(fd[0], &b, 1) < 0) {
            }
            if (b != 'g') {
                _exit(0);
            }
            alarm(60);
            c->hooks = Hooks{};
            pb.active = true;
            callback_playback(*c, static_cast<int>(t));
            finish(O_OK, "ok", "");
        }
        close(fd[0]);
        kids.emplace_back(pid, fd[1]);
    }
    pb.record = n > 1;
}
void World::join_playback() {
    pb.record = false;
    std::string bad;
    for (size_t i = 0; i < kids.size(); ++i) {
        auto [pid, fd] = kids[i];
        char b = sh->tr_len[i] < (1 << 18) ? 'g' : 'x';
        CHECK_INTERNAL(write(fd, &b, 1) == 1);
        close(fd);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            count(isolation_compared);
            continue;
        }
        bad = WIFEXITED(st) && WEXITSTATUS(st) == 42 ? std::string(sh->note)
                                                     : "thread " + std::to_string(i) + " alone: process status " +
                                                           std::to_string(st) + " " + sh->note;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 43) {
            internal_error("playback: %s", sh->note);
        }
        kids.clear();
        violation("isolation", "%s%s", tag.c_str(), bad.c_str());
    }
    kids.clear();
}
