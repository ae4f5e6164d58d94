#include "solver.hh"
#include <algorithm>
#include <array>
#include <cstdarg>

namespace {
enum Fn {
#include "fn.inc"
};
template <class F> uint64_t resp(F f) {
    if (pb.active && cur->solver_thread >= 0) {
        return tr_in(0);
    }
    return tr_in(static_cast<uint64_t>(f()));
}
size_t li(int l) { return l > 0 ? static_cast<size_t>(2 * l) : static_cast<size_t>(-2 * l + 1); }

std::map<clingo_control_t *, SimControl *> &registry() {
    static auto *r = new std::map<clingo_control_t *, SimControl *>;
    return *r;
}
// kinds in transcripts
enum TrKind { TK_PROPAGATE = 1, TK_UNDO, TK_CHECK, TK_DECIDE, TK_MODEL, TK_END };
} // namespace

std::function<void(SimControl &)> main_control_hook;
std::map<std::string, std::string> sim_files;

void must(bool ok, char const *what) {
    if (!ok) {
        internal_error("client call %s failed: %s", what, clingo_error_message());
    }
}
std::string sym_str(clingo_symbol_t s) {
    size_t n = 0;
    must(clingo_symbol_to_string_size(s, &n), "symbol_to_string_size");
    std::vector<char> b(n);
    must(clingo_symbol_to_string(s, b.data(), n), "symbol_to_string");
    return b.data();
}

// ------------------------------------------------------------------ threads
SThread::SThread(SimControl &c, int id) : c{c}, id{id} {
    grow(c.nvars);
    assign(1, -1);
}
void SThread::grow(int nvars) {
    auto n = static_cast<size_t>(nvars) + 1;
    if (val.size() < n) {
        val.resize(n, 0);
        lev.resize(n, 0);
        reason.resize(n, -1);
        occ.resize(2 * n + 2);
    }
}
void SThread::assign(int lit, int r) {
    auto v = static_cast<size_t>(abs(lit));
    CHECK_INTERNAL(val[v] == 0);
    val[v] = lit > 0 ? 1 : -1;
    lev[v] = static_cast<uint32_t>(lim.size());
    reason[v] = r;
    trail.push_back(lit);
}
int SThread::attach(std::vector<int> lits, bool learnt, bool theory) {
    int idx = static_cast<int>(cls.size());
    for (int l : lits) {
        occ[li(l)].push_back(idx);
    }
    cls.push_back({std::move(lits), learnt, theory});
    return idx;
}
bool SThread::up() {
    CHECK_INTERNAL(!has_conflict);
    while (qhead < trail.size()) {
        int p = trail[qhead++];
        if (watch.count(p) != 0) {
            pending.push_back(p);
        }
        // by index as the list does not change while propagating
        for (int ci : occ[li(-p)]) {
            auto &cl = cls[static_cast<size_t>(ci)].lits;
            int free = 0;
            bool sat = false;
            bool multi = false;
            for (int l : cl) {
                int v = value(l);
                if (v == 1) {
                    sat = true;
                    break;
                }
                if (v == 0) {
                    if (free != 0) {
                        multi = true;
                        break;
                    }
                    free = l;
                }
            }
            if (sat || multi) {
                continue;
            }
            if (free == 0) {
                has_conflict = true;
                conflict = cl;
                return false;
            }
            assign(free, ci);
        }
    }
    return true;
}
// normalizes the clause and sorts: true/free literals first, then false ones by descending level
AddStatus SThread::status(std::vector<int> &lits, uint32_t &dl) {
    std::vector<int> r;
    std::set<int> seen;
    bool sat = false;
    for (int l : lits) {
        if (seen.count(-l) != 0) {
            return AS_TAUT;
        }
        if (!seen.insert(l).second) {
            continue;
        }
        if (value(l) == 1) {
            sat = true;
            if (fixed(l)) {
                return AS_TAUT;
            }
        }
        if (fixed(l) && value(l) == -1) {
            continue;
        }
        r.push_back(l);
    }
    auto key = [this](int l) -> int64_t { return value(l) >= 0 ? -1000000 : -static_cast<int64_t>(lev[static_cast<size_t>(abs(l))]); };
    std::stable_sort(r.begin(), r.end(), [&](int a, int b) { return key(a) < key(b); });
    lits = r;
    if (sat) {
        // a true literal with a level above all false ones could be unit in clasp; keep it simple
        return AS_SAT;
    }
    dl = 0;
    if (lits.empty()) {
        return AS_CONFLICT;
    }
    if (value(lits[0]) == -1) {
        dl = lev[static_cast<size_t>(abs(lits[0]))];
        return AS_CONFLICT;
    }
    if (lits.size() == 1 || value(lits[1]) == -1) {
        dl = lits.size() == 1 ? 0 : lev[static_cast<size_t>(abs(lits[1]))];
        return AS_UNIT;
    }
    return AS_FREE;
}
bool SThread::add(std::vector<int> lits, bool learnt, bool theory) {
    CHECK_INTERNAL(!has_conflict);
    uint32_t dl = 0;
    auto s = status(lits, dl);
    switch (s) {
        case AS_TAUT: {
            return true;
        }
        case AS_SAT:
        case AS_FREE: {
            attach(std::move(lits), learnt, theory);
            return true;
        }
        case AS_UNIT: {
            int f = lits[0];
            int ci = attach(std::move(lits), learnt, theory);
            assign(f, ci);
            return true;
        }
        default: {
            conflict = lits;
            attach(std::move(lits), learnt, theory);
            has_conflict = true;
            return false;
        }
    }
}
void SThread::new_level(int lit) {
    CHECK_INTERNAL(qhead == trail.size() && pending.empty());
    lim.push_back(trail.size());
    delivered.resize(lim.size() + 1);
    delivered[lim.size()].clear();
    assign(lit, -1);
}

struct SPropCtl {
    SThread *t;
    bool prop; // called from propagate or a fixpoint check
};

void SThread::undo_until(uint32_t l) {
    while (lim.size() > l) {
        auto L = lim.size();
        auto start = lim.back();
        for (size_t i = start; i < trail.size(); ++i) {
            val[static_cast<size_t>(abs(trail[i]))] = 0;
        }
        pending.erase(std::remove_if(pending.begin(), pending.end(), [this](int p) { return value(p) != 1; }),
                      pending.end());
        trail.resize(start);
        qhead = std::min(qhead, trail.size());
        lim.pop_back();
        has_conflict = false;
        auto d = std::move(delivered[L]);
        delivered.resize(L);
        front = -1;
        if (!d.empty() && c.registered && c.prop.undo != nullptr) {
            in_undo = true;
            undo_level = static_cast<uint32_t>(L);
            SPropCtl pc{this, false};
            count(undo_calls);
            event(0xE0000 + L);
            log("  [%d] undo level %zu", id, L);
            auto t0 = sim_now;
            tr_in(TK_UNDO);
            tr_in(L);
            tr_in(d.size());
            for (int x : d) {
                tr_in(static_cast<uint32_t>(x));
            }
            {
                // expose literals of deeper scopes as free
                InRepo r(CB_UNDO);
                c.prop.undo(reinterpret_cast<clingo_propagate_control_t *>(&pc), d.data(), d.size(), c.pdata);
            }
            tr_out(0xE0D);
            in_undo = false;
            if (c.hooks.callback) {
                c.hooks.callback(*this, CB_UNDO, t0, sim_now);
            }
        }
        yield_point();
    }
}

// clauses of the problem and of other threads; true if something was added
bool SThread::integrate() {
    bool any = false;
    while (!has_conflict && problem_pos < c.problem.size()) {
        auto lits = c.problem[problem_pos++];
        any = true;
        todo = std::move(lits);
        has_todo = true;
        todo_learnt = false;
        flush_todo();
    }
    while (!has_conflict && inbox_pos < c.inbox.size()) {
        auto [from, lits] = c.inbox[inbox_pos++];
        if (from == id) {
            continue;
        }
        any = true;
        todo = std::move(lits);
        has_todo = true;
        flush_todo();
    }
    return any;
}
// adds the pending clause, jumping back first if it is unit or conflicting on a lower level
bool SThread::flush_todo() {
    if (!has_todo) {
        return !has_conflict;
    }
    uint32_t dl = 0;
    auto lits = todo;
    auto s = status(lits, dl);
    if ((s == AS_UNIT || s == AS_CONFLICT) && dl < lim.size() && lim.size() > root) {
        undo_until(std::max(dl, root));
    }
    has_todo = false;
    if (has_conflict) {
        return false;
    }
    bool learnt = todo_learnt;
    todo_learnt = true;
    add(std::move(lits), learnt, true);
    return !has_conflict;
}

// propagation to fixpoint including the theory; false on conflict, error or stop
bool SThread::propagate_all() {
    for (;;) {
        if (has_conflict || !up()) {
            return false;
        }
        if (!c.registered || c.error) {
            return !c.error;
        }
        bool fix = (c.check_mode & clingo_propagator_check_mode_fixpoint) != 0;
        if (!pending.empty()) {
            auto batch = pending;
            pending.clear();
            auto L = lim.size();
            if (L == 0) {
                delivered0.insert(delivered0.end(), batch.begin(), batch.end());
            } else {
                auto &d = delivered[L];
                d.insert(d.end(), batch.begin(), batch.end());
            }
            front = -1;
            if (c.prop.propagate != nullptr) {
                count(propagate_calls);
                count(delivered_literals, batch.size());
                event(0xB0000 + L);
                if (sh->verbose) {
                    std::string s;
                    for (int x : batch) {
                        s += " " + std::to_string(x);
                    }
                    log("  [%d] propagate level %zu:%s", id, L, s.c_str());
                }
                tr_in(TK_PROPAGATE);
                tr_in(batch.size());
                for (int x : batch) {
                    tr_in(static_cast<uint32_t>(x));
                }
                this->batch = batch;
                if (c.hooks.propagating) {
                    c.hooks.propagating(*this);
                }
                watch_calls = 0;
                SPropCtl pc{this, true};
                bool ok = false;
                auto t0 = sim_now;
                {
                    InRepo r(CB_PROPAGATE);
                    ok = c.prop.propagate(reinterpret_cast<clingo_propagate_control_t *>(&pc), batch.data(),
                                          batch.size(), c.pdata);
                }
                tr_out(ok ? 1 : 0);
                if (c.hooks.callback) {
                    c.hooks.callback(*this, CB_PROPAGATE, t0, sim_now);
                }
                if (!ok) {
                    c.set_error_from_clingo();
                    return false;
                }
                if (c.interrupted_inside && !has_conflict && !has_todo) {
                    return false;
                }
            }
        } else if (fix && front < static_cast<int64_t>(trail.size())) {
            front = static_cast<int64_t>(trail.size());
            if (c.prop.check != nullptr) {
                count(check_calls);
                event(0xC0000 + lim.size());
                tr_in(TK_CHECK);
                SPropCtl pc{this, true};
                bool ok = false;
                auto t0 = sim_now;
                {
                    InRepo r(CB_CHECK);
                    ok = c.prop.check(reinterpret_cast<clingo_propagate_control_t *>(&pc), c.pdata);
                }
                tr_out(ok ? 1 : 0);
                if (c.hooks.callback) {
                    c.hooks.callback(*this, CB_CHECK, t0, sim_now);
                }
                if (!ok) {
                    c.set_error_from_clingo();
                    return false;
                }
                if (c.interrupted_inside && !has_conflict && !has_todo) {
                    return false;
                }
            }
        } else {
            return true;
        }
        if (!flush_todo()) {
            return false;
        }
        yield_point();
    }
}

// conflict analysis; false if the problem is unsatisfiable under the root literals
bool SThread::resolve() {
    CHECK_INTERNAL(has_conflict);
    ++conflicts_n;
    count(::conflicts);
    for (;;) {
        uint32_t m = 0;
        for (int l : conflict) {
            m = std::max(m, lev[static_cast<size_t>(abs(l))]);
        }
        if (m <= root) {
            return false;
        }
        if (m < lim.size()) {
            auto k = conflict;
            undo_until(m);
            conflict = k;
            has_conflict = true;
        }
        break;
    }
    auto L = static_cast<uint32_t>(lim.size());
    std::vector<int> learnt;
    int uip = 0;
    {
        std::set<int> seen;
        std::vector<int> work = conflict;
        int open = 0;
        auto visit = [&](std::vector<int> const &ls, int except) {
            for (int l : ls) {
                auto v = static_cast<size_t>(abs(l));
                if (l == except || lev[v] == 0 || !seen.insert(abs(l)).second) {
                    continue;
                }
                CHECK_INTERNAL(value(l) == -1);
                if (lev[v] == L) {
                    ++open;
                } else {
                    learnt.push_back(l);
                }
            }
        };
        visit(conflict, 0);
        CHECK_INTERNAL(open > 0);
        for (size_t i = trail.size();;) {
            --i;
            int p = trail[i];
            if (seen.count(abs(p)) == 0 || lev[static_cast<size_t>(abs(p))] != L) {
                continue;
            }
            auto r = reason[static_cast<size_t>(abs(p))];
            if (open == 1 && (c.cfg.learn == 0 || r < 0)) {
                uip = -p;
                break;
            }
            if (r < 0) {
                uip = -p;
                break;
            }
            --open;
            visit(cls[static_cast<size_t>(r)].lits, p);
        }
    }
    if (c.cfg.learn == 2) {
        // negation of all decisions
        learnt.clear();
        for (size_t i = 0; i + 1 < lim.size(); ++i) {
            learnt.push_back(-trail[lim[i]]);
        }
        uip = -trail[lim.back()];
    }
    uint32_t bj = 0;
    for (int l : learnt) {
        bj = std::max(bj, lev[static_cast<size_t>(abs(l))]);
    }
    learnt.insert(learnt.begin(), uip);
    undo_until(std::max(bj, root));
    CHECK_INTERNAL(!has_conflict);
    if (c.cfg.share > 0 && c.threads.size() > 1 && chance(c.cfg.stream, static_cast<uint32_t>(c.cfg.share))) {
        count(shared_clauses);
        c.inbox.emplace_back(id, learnt);
    }
    int ci = attach(learnt, true, false);
    if (value(uip) == 0) {
        assign(uip, ci);
    } else if (value(uip) == -1) { // changed by callbacks while undoing (cannot happen)
        internal_error("asserting literal false after backjump");
    }
    return true;
}
bool SThread::total() const {
    for (int v = 1; v <= c.nvars; ++v) {
        if (val[static_cast<size_t>(v)] == 0 && !c.dead[static_cast<size_t>(v)]) {
            return false;
        }
    }
    return true;
}
std::vector<int> SThread::free_vars() const {
    std::vector<int> r;
    for (int v = 1; v <= c.nvars; ++v) {
        if (val[static_cast<size_t>(v)] == 0 && !c.dead[static_cast<size_t>(v)]) {
            r.push_back(v);
        }
    }
    return r;
}

void SThread::add_init_watches() {
    for (auto &[l, add] : c.init_watches[static_cast<size_t>(id)]) {
        if (!add) {
            watch.erase(l);
        } else if (watch.insert(l).second && value(l) == 1) {
            // notify about literals that have been propagated already
            for (size_t i = 0; i < qhead; ++i) {
                if (trail[i] == l) {
                    pending.push_back(l);
                }
            }
        }
    }
}

void SThread::search() {
    auto &cfg = c.cfg;
    auto S = cfg.stream;
    std::array<uint64_t, 5> last{};
    uint64_t stall = 0;
    while (!c.stop) {
        yield_point();
        std::array<uint64_t, 5> now{trail.size(), lim.size(), c.conflicts, c.models, problem_pos + inbox_pos + root_pos};
        if (now != last) {
            last = now;
            stall = 0;
        } else if (!c.model_busy && ++stall > cfg.max_stall) {
            violation("no-progress", "%lu rounds of propagation and check without any change", static_cast<unsigned long>(stall));
        }
        if (c.stop) {
            break;
        }
        ++c.search_steps;
        if (cfg.stop_after > 0 && c.search_steps >= cfg.stop_after) {
            if (!c.interrupted) {
                count(fault_interrupt);
                log("  FAULT: interrupt");
            }
            c.interrupted = true;
            c.stop = true;
            break;
        }
        if (!propagate_all()) {
            if (c.error) {
                c.stop = true;
                break;
            }
            if (c.interrupted_inside && !has_conflict) {
                break;
            }
            if (++c.conflicts > cfg.max_conflicts) {
                if (cfg.conflicts_bounded) {
                    violation("no-verdict", "no verdict after %lu conflicts", static_cast<unsigned long>(cfg.max_conflicts));
                }
                finish(O_BUDGET, "budget", "conflict budget exhausted");
            }
            sh->cnt[conflicts_max] = std::max(sh->cnt[conflicts_max], c.conflicts);
            event(0xD0000 + lim.size());
            if (!resolve()) {
                if (lim.empty() || [this]() {
                        for (int l : conflict) {
                            if (lev[static_cast<size_t>(abs(l))] > 0) {
                                return false;
                            }
                        }
                        return true;
                    }()) {
                    c.unsat = true;
                }
                log("  [%d] exhausted", id);
                c.exhausted = true;
                c.stop = true;
                break;
            }
            if (cfg.restart > 0 && chance(S, static_cast<uint32_t>(cfg.restart)) && lim.size() > root) {
                count(restarts);
                undo_until(root);
            }
            if (cfg.forget > 0 && c.forgotten < cfg.forget_max && chance(S, static_cast<uint32_t>(cfg.forget))) {
                // forget a learnt clause that is not a reason
                std::set<int> locked;
                for (int l : trail) {
                    locked.insert(reason[static_cast<size_t>(abs(l))]);
                }
                std::vector<int> cand;
                for (size_t i = 0; i < cls.size(); ++i) {
                    bool step = false;
                    for (int l : cls[i].lits) {
                        step = step || abs(l) == c.step_var;
                    }
                    if (cls[i].learnt && !cls[i].lits.empty() && !step && locked.count(static_cast<int>(i)) == 0) {
                        cand.push_back(static_cast<int>(i));
                    }
                }
                if (!cand.empty()) {
                    auto i = static_cast<size_t>(cand[draw(S, static_cast<uint32_t>(cand.size()))]);
                    for (int l : cls[i].lits) {
                        auto &o = occ[li(l)];
                        o.erase(std::remove(o.begin(), o.end(), static_cast<int>(i)), o.end());
                    }
                    cls[i].lits.clear();
                    ++c.forgotten;
                    count(forgotten_clauses);
                }
            }
            continue;
        }
        if (c.stop) {
            break;
        }
        if (integrate()) {
            continue;
        }
        // root literals
        if (root_pos < c.root_lits.size()) {
            int l = c.root_lits[root_pos];
            if (value(l) == -1) {
                c.exhausted = true;
                c.stop = true;
                break;
            }
            if (lim.size() > root) {
                undo_until(root);
                continue;
            }
            ++root_pos;
            if (value(l) == 0) {
                new_level(l);
                root = static_cast<uint32_t>(lim.size());
            }
            continue;
        }
        if (c.hooks.fixpoint) {
            c.hooks.fixpoint(*this);
        }
        if (total()) {
            if (c.registered && c.prop.check != nullptr && (c.check_mode & clingo_propagator_check_mode_total) != 0) {
                count(check_calls);
                event(0xC1000 + lim.size());
                tr_in(TK_CHECK);
                SPropCtl pc{this, false};
                bool ok = false;
                auto t0 = sim_now;
                {
                    InRepo r(CB_CHECK);
                    ok = c.prop.check(reinterpret_cast<clingo_propagate_control_t *>(&pc), c.pdata);
                }
                tr_out(ok ? 1 : 0);
                if (c.hooks.callback) {
                    c.hooks.callback(*this, CB_CHECK, t0, sim_now);
                }
                if (!ok) {
                    c.set_error_from_clingo();
                    c.stop = true;
                    break;
                }
                bool had = has_todo;
                flush_todo();
                if (had || has_conflict || qhead < trail.size() || !total()) {
                    continue;
                }
            }
            if (c.model_busy) {
                wait_until([this]() { return !c.model_busy; });
                continue; // look at the blocking clause first
            }
            if (c.stop) {
                break; // a stopped search reports no further model
            }
            c.model_busy = true;
            ++c.models;
            count(::models);
            event(0x30000 + c.models);
            log("  [%d] model %lu", id, static_cast<unsigned long>(c.models));
            if (c.hooks.total) {
                c.hooks.total(*this);
            }
            std::vector<int> block{-c.step_var};
            for (size_t i = root; i < lim.size(); ++i) {
                block.push_back(-trail[lim[i]]);
            }
            c.inbox.emplace_back(id, block);
            ModelView mv;
            mv.t = this;
            mv.number = c.models;
            bool goon = true;
            tr_in(TK_MODEL);
            if (c.notify != nullptr) {
                bool ok = false;
                {
                    InRepo r(CB_EVENT);
                    ok = c.notify(clingo_solve_event_type_model, &mv, c.notify_data, &goon);
                }
                if (!ok) {
                    c.set_error_from_clingo();
                    goon = false;
                }
            } else if (c.on_model) {
                goon = c.on_model(mv);
            }
            tr_out(0x30D);
            if (c.hooks.model && !c.error) {
                c.hooks.model(mv);
            }
            c.model_busy = false;
            if (!goon || c.error || (cfg.models > 0 && c.models >= cfg.models)) {
                c.stop = true;
                if (!c.error && cfg.models > 0 && c.models >= cfg.models) {
                    count(fault_model_limit);
                }
                break;
            }
            todo = block;
            has_todo = true;
            flush_todo();
            continue;
        }
        // undo levels without a conflict
        if (cfg.hop > 0 && c.hops < cfg.hop_max && lim.size() > root && chance(S, static_cast<uint32_t>(cfg.hop))) {
            ++c.hops;
            count(hops);
            auto l = root + draw(S, static_cast<uint32_t>(lim.size() - root));
            event(0x60000 + l);
            log("  [%d] back to level %u", id, static_cast<unsigned>(l));
            undo_until(static_cast<uint32_t>(l));
            continue;
        }
        // decision
        auto fv = free_vars();
        CHECK_INTERNAL(!fv.empty());
        int v = fv[draw(S, static_cast<uint32_t>(fv.size()))];
        int fallback = draw(S, 2) == 0 ? -v : v;
        int decision = fallback;
        if (c.registered && c.prop.decide != nullptr) {
            count(decide_calls);
            event(0xF0000);
            tr_in(TK_DECIDE);
            tr_in(static_cast<uint32_t>(fallback));
            int res = 0;
            bool ok = false;
            {
                InRepo r(CB_DECIDE);
                ok = c.prop.decide(static_cast<clingo_id_t>(id), reinterpret_cast<clingo_assignment_t const *>(this),
                                   fallback, c.pdata, &res);
            }
            tr_out(ok ? 1 : 0);
            tr_out(static_cast<uint32_t>(res));
            if (!ok) {
                c.set_error_from_clingo();
                c.stop = true;
                break;
            }
            if (c.hooks.decide) {
                c.hooks.decide(*this, fallback, res);
            }
            if (res != 0 && abs(res) <= c.nvars && value(res) == 0) {
                decision = res;
            }
        }
        count(decisions);
        event(static_cast<uint64_t>(0x40000 + decision));
        log("  [%d] decide %d on level %zu", id, decision, lim.size() + 1);
        new_level(decision);
    }
    undo_until(0);
    root = 0;
    root_pos = 0;
}

// ------------------------------------------------------------------ control
void SimControl::set_error_from_clingo() {
    if (!error) {
        error = true;
        error_code = clingo_error_code();
        auto const *m = clingo_error_message();
        error_msg = m != nullptr ? m : "";
        log("  error: %s", error_msg.c_str());
        event(0xE11);
    }
    stop = true;
}
int SimControl::new_var() {
    ++nvars;
    dead.resize(static_cast<size_t>(nvars) + 1, false);
    for (auto &t : threads) {
        t->grow(nvars);
    }
    return nvars;
}
int SimControl::plit(int l) {
    int a = abs(l);
    auto it = lit.find(a);
    int r = -1;
    if (it != lit.end()) {
        r = it->second;
    }
    return l > 0 ? r : -r;
}
bool SimControl::add_problem(std::vector<int> lits) {
    if (unsat) {
        return false;
    }
    auto &t = *threads[0];
    CHECK_INTERNAL(t.lim.empty());
    problem.push_back(lits);
    if (!t.add(std::move(lits), false, false)) {
        unsat = true;
        t.has_conflict = false;
        return false;
    }
    return true;
}
void SimControl::translate() {
    if (sh->verbose) {
        for (auto const &r : new_rules) {
            std::string t;
            for (int h : r.head) {
                t += " " + std::to_string(h);
            }
            t += r.choice ? " (choice) :-" : " :-";
            for (int b : r.body) {
                t += " " + std::to_string(b);
            }
            log("  rule%s", t.c_str());
        }
    }
    // group rules
    std::map<int, std::vector<Rule const *>> by_head;
    std::vector<Rule const *> integrity;
    std::set<int> atoms;
    for (auto const &r : new_rules) {
        if (r.head.empty()) {
            if (!r.choice) {
                integrity.push_back(&r);
            }
        } else if (r.head.size() > 1 && !r.choice) {
            internal_error("disjunctive rule");
        }
        for (int h : r.head) {
            by_head[h].push_back(&r);
            atoms.insert(h);
        }
        for (int b : r.body) {
            atoms.insert(abs(b));
        }
    }
    for (auto const &[a, t] : ext) {
        atoms.insert(a);
    }
    for (int a : theory_lits) {
        atoms.insert(a);
    }
    std::vector<int> order(atoms.begin(), atoms.end());
    if (cfg.shuffle) {
        for (size_t i = order.size(); i > 1; --i) {
            std::swap(order[i - 1], order[draw(cfg.stream, static_cast<uint32_t>(i))]);
        }
    }
    std::set<int> aliased, active;
    std::function<int(int)> resolve = [&](int a) -> int {
        auto it = lit.find(a);
        if (it != lit.end()) {
            return it->second;
        }
        if (!active.insert(a).second) {
            internal_error("program is not tight");
        }
        int res = 0;
        auto bh = by_head.find(a);
        bool is_ext = ext.count(a) != 0 && ext[a] != clingo_external_type_release;
        if (bh != by_head.end()) {
            for (auto const *r : bh->second) {
                if (r->body.empty() && !r->choice) {
                    res = 1;
                }
            }
            if (res == 0 && bh->second.size() == 1 && !bh->second[0]->choice && bh->second[0]->body.size() == 1 &&
                cfg.merge > 0 && !is_ext && chance(cfg.stream, static_cast<uint32_t>(cfg.merge))) {
                int b = bh->second[0]->body[0];
                int x = resolve(abs(b));
                res = b > 0 ? x : -x;
                aliased.insert(a);
            }
        } else if (!is_ext && theory_lits.count(a) == 0) {
            res = -1;
        }
        if (res == 0) {
            res = new_var();
            if (cfg.flip > 0 && chance(cfg.stream, static_cast<uint32_t>(cfg.flip))) {
                res = -res;
            }
        }
        active.erase(a);
        lit[a] = res;
        return res;
    };
    for (int a : order) {
        resolve(a);
    }
    for (auto &[a, rs] : by_head) {
        if (!defined.insert(a).second) {
            internal_error("atom redefined in a later step");
        }
        bool fact = false;
        for (auto const *r : rs) {
            fact = fact || (r->body.empty() && !r->choice);
        }
        if (aliased.count(a) != 0) {
            continue;
        }
        int h = lit[a];
        if (fact) {
            if (h != 1) { // e.g. an external defined by a fact
                add_problem({h});
            }
            continue;
        }
        std::vector<int> support{-h};
        for (auto const *r : rs) {
            std::vector<int> bl;
            for (int b : r->body) {
                bl.push_back(plit(b));
            }
            std::sort(bl.begin(), bl.end());
            bl.erase(std::unique(bl.begin(), bl.end()), bl.end());
            int body = 1;
            if (bl.size() == 1) {
                body = bl[0];
            } else if (bl.size() > 1) {
                auto [it, ins] = bodies.emplace(bl, 0);
                if (ins) {
                    it->second = new_var();
                    std::vector<int> c2{it->second};
                    for (int b : bl) {
                        add_problem({-it->second, b});
                        c2.push_back(-b);
                    }
                    add_problem(c2);
                }
                body = it->second;
            }
            if (!r->choice) {
                add_problem({-body, h});
            }
            support.push_back(body);
        }
        add_problem(support);
    }
    for (auto const *r : integrity) {
        std::vector<int> cl;
        for (int b : r->body) {
            cl.push_back(-plit(b));
        }
        add_problem(cl);
    }
    new_rules.clear();
    // released externals without definition are false
    for (auto it = ext.begin(); it != ext.end();) {
        bool def = defined.count(it->first) != 0;
        if (def || it->second == clingo_external_type_release) {
            if (!def) {
                add_problem({-plit(it->first)});
            }
            it = ext.erase(it);
        } else {
            ++it;
        }
    }
}
void SimControl::read_symbols() {
    syms.clear();
    clingo_symbolic_atoms_t const *atoms = nullptr;
    must(clingo_control_symbolic_atoms(real, &atoms), "symbolic_atoms");
    clingo_symbolic_atom_iterator_t it = 0, ie = 0;
    must(clingo_symbolic_atoms_begin(atoms, nullptr, &it), "begin");
    must(clingo_symbolic_atoms_end(atoms, &ie), "end");
    for (;;) {
        bool eq = false;
        must(clingo_symbolic_atoms_iterator_is_equal_to(atoms, it, ie, &eq), "eq");
        if (eq) {
            break;
        }
        clingo_symbol_t s = 0;
        clingo_literal_t l = 0;
        must(clingo_symbolic_atoms_symbol(atoms, it, &s), "sym");
        must(clingo_symbolic_atoms_literal(atoms, it, &l), "lit");
        bool fact = false;
        must(clingo_symbolic_atoms_is_fact(atoms, it, &fact), "fact");
        syms.push_back({s, sym_str(s), fact ? 0 : l});
        must(clingo_symbolic_atoms_next(atoms, it, &it), "next");
    }
    std::sort(syms.begin(), syms.end(), [](auto const &a, auto const &b) { return a.name < b.name; });
}

SolveResult SimControl::solve(std::vector<int> const &assumptions) {
    SolveResult res;
    count(solves);
    ++solve_nr;
    stop = exhausted = interrupted = interrupted_inside = error = model_busy = false;
    error_msg.clear();
    models = search_steps = 0;
    conflicts = 0;
    hops = 0;
    inbox.clear();
    step_stats = SimStats{};
    auto finish_events = [&]() {
        if (!res.ok) {
            return;
        }
        if (notify != nullptr) {
            clingo_statistics_t *st[2] = {reinterpret_cast<clingo_statistics_t *>(&step_stats),
                                          reinterpret_cast<clingo_statistics_t *>(&accu_stats)};
            bool goon = true;
            bool ok = false;
            {
                InRepo r(CB_EVENT);
                ok = notify(clingo_solve_event_type_statistics, st, notify_data, &goon);
            }
            if (!ok) {
                set_error_from_clingo();
            } else {
                clingo_solve_result_bitset_t bits = static_cast<clingo_solve_result_bitset_t>(res.bits);
                InRepo r(CB_EVENT);
                if (!notify(clingo_solve_event_type_finish, &bits, notify_data, &goon)) {
                    set_error_from_clingo();
                }
            }
        } else if (on_stats) {
            if (!on_stats(step_stats, accu_stats)) {
                set_error_from_clingo();
            }
        }
        if (error) {
            res.ok = false;
            res.error = error_msg;
        }
    };
    std::function<void()> conclude = [&]() {
        res.models = models;
        if (error) {
            res.ok = false;
            res.error = error_msg;
        } else {
            res.bits = (models > 0 ? RES_SAT : 0) | (exhausted && models == 0 ? RES_UNSAT : 0) |
                       (exhausted ? RES_EXHAUSTED : 0) | (interrupted ? RES_INTERRUPTED : 0);
        }
        finish_events();
        if (hooks.solved) {
            hooks.solved(*this, res);
        }
        log(" solve %d: %s models=%lu bits=%d", solve_nr, res.ok ? "ok" : res.error.c_str(),
            static_cast<unsigned long>(models), res.bits);
        return res;
    };
    // let the real control finish the step (grounding is complete after that)
    {
        OutRepo o;
        clingo_solve_handle_t *h = nullptr;
        clingo_solve_result_bitset_t r = 0;
        bool conflict = clingo_control_is_conflicting(real);
        must(clingo_control_solve(real, 0, nullptr, 0, nullptr, nullptr, &h), "solve");
        must(clingo_solve_handle_get(h, &r), "solve_handle_get");
        must(clingo_solve_handle_close(h), "solve_handle_close");
        if (conflict && !unsat) {
            // the grounder stopped to output rules
            finish(O_BUDGET, "real-unsat", "the real control is unsatisfiable independently of the theory");
        }
    }
    body(assumptions, res, conclude);
    theory_closed = true;
    return res;
}

void SimControl::body(std::vector<int> const &assumptions, SolveResult &res, std::function<void()> const &conclude) {
    read_symbols();
    // theory atoms
    {
        for (auto const &a : theory.atoms) {
            theory_lits.insert(a.lit);
        }
        if (cfg.shuffle) {
            for (size_t i = theory.atoms.size(); i > 1; --i) {
                std::swap(theory.atoms[i - 1], theory.atoms[draw(cfg.stream, static_cast<uint32_t>(i))]);
            }
        }
    }
    if (threads.empty()) {
        dead.resize(2, false);
        threads.emplace_back(std::make_unique<SThread>(*this, 0));
    }
    auto n = static_cast<size_t>(cfg.threads);
    CHECK_INTERNAL(n > 0);
    if (threads.size() > n) {
        threads.resize(n);
    }
    for (auto &t : threads) {
        t->inbox_pos = 0;
        t->fresh = false;
    }
    threads[0]->problem_pos = problem.size();
    auto from = problem.size();
    static_cast<void>(from);
    translate();
    threads[0]->problem_pos = problem.size();
    if (unsat) {
        exhausted = true;
        conclude();
        return;
    }
    if (cfg.up_before_init && !threads[0]->up()) {
        unsat = exhausted = true;
        threads[0]->has_conflict = false;
        conclude();
        return;
    }
    // new threads start with the facts of the first one
    while (threads.size() < n) {
        threads.emplace_back(std::make_unique<SThread>(*this, static_cast<int>(threads.size())));
        auto &t = *threads.back();
        for (int l : threads[0]->trail) {
            if (t.value(l) == 0) {
                t.assign(l, -1);
            }
        }
    }
    init_watches.assign(n, {});
    if (registered && prop.init != nullptr) {
        count(init_calls);
        log(" init (threads %zu)", n);
        in_init = true;
        bool ok = false;
        init_t0 = sim_now;
        {
            InRepo r(CB_INIT);
            ok = prop.init(reinterpret_cast<clingo_propagate_init_t *>(this), pdata);
        }
        init_t1 = sim_now;
        in_init = false;
        if (!ok) {
            set_error_from_clingo();
            conclude();
            return;
        }
        threads[0]->problem_pos = problem.size();
    }
    if (hooks.post_init) {
        hooks.post_init(*this);
    }
    if (unsat) {
        exhausted = true;
        conclude();
        return;
    }
    // watches
    for (auto &t : threads) {
        t->front = -1;
        t->delivered0.clear();
        t->root = 0;
        t->root_pos = 0;
        t->has_conflict = false;
        t->absent = t->id > 0 && ((cfg.absent >> t->id) & 1) != 0;
        if (!t->absent) {
            t->add_init_watches();
        }
    }
    // root literals
    step_var = new_var();
    root_lits.assign(1, step_var);
    for (int a : assumptions) {
        root_lits.push_back(plit(a));
    }
    for (auto &[a, ty] : ext) {
        if (ty == clingo_external_type_true) {
            root_lits.push_back(plit(a));
        } else if (ty == clingo_external_type_false) {
            root_lits.push_back(-plit(a));
        }
    }
    if (n == 1) {
        int saved = cur->solver_thread;
        cur->solver_thread = 0;
        threads[0]->search();
        cur->solver_thread = saved;
    } else {
        if (cfg.races) {
            race_reset(true);
        }
        std::vector<std::function<void()>> fs;
        for (auto &t : threads) {
            auto *p = t.get();
            if (p->absent) {
                continue;
            }
            fs.emplace_back([p]() {
                cur->solver_thread = p->id;
                p->search();
            });
        }
        run_threads(std::move(fs));
        race_reset(false);
    }
    for (auto &t : threads) {
        if (t->absent) {
            // changes of watches are lost if the search is interrupted before a thread starts
            if (interrupted) {
                count(fault_absent_thread);
                log("  FAULT: thread %d did not start", t->id);
            } else {
                t->add_init_watches();
            }
        }
    }
    // clauses depending on the step are gone, level 0 assignments stay
    dead[static_cast<size_t>(step_var)] = true;
    for (auto &t : threads) {
        t->has_conflict = false;
        t->has_todo = false;
        for (size_t i = 0; i < t->cls.size(); ++i) {
            auto &cl = t->cls[i].lits;
            bool step = false;
            for (int l : cl) {
                step = step || abs(l) == step_var;
            }
            if (step) {
                for (int l : cl) {
                    auto &o = t->occ[li(l)];
                    o.erase(std::remove(o.begin(), o.end(), static_cast<int>(i)), o.end());
                }
                cl.clear();
            }
        }
        if (t->value(step_var) != 0) {
            // derived on level 0: the negation of the step literal, nothing else depends on it
            auto it = std::find_if(t->trail.begin(), t->trail.end(), [this](int l) { return abs(l) == step_var; });
            auto off = static_cast<size_t>(it - t->trail.begin());
            if (off < t->qhead) {
                --t->qhead;
            }
            t->trail.erase(it);
            t->val[static_cast<size_t>(step_var)] = 0;
        }
    }
    conclude();
    return;
}

// replays the callbacks of one solver thread from its transcript (other threads do not run)
bool callback_playback(SimControl &c, int tid) {
    pb.active = true;
    pb.record = false;
    pb.thread = tid;
    pb.pos = 0;
    cur->solver_thread = tid;
    auto &T = *c.threads[static_cast<size_t>(tid)];
    SPropCtl pc{&T, true};
    auto *ctl = reinterpret_cast<clingo_propagate_control_t *>(&pc);
    for (;;) {
        if (pb.pos >= sh->tr_len[tid]) {
            return true;
        }
        auto k = tr_in(0);
        switch (k) {
            case TK_UNDO: {
                tr_in(0);
                std::vector<int> d(tr_in(0));
                for (auto &x : d) {
                    x = static_cast<int>(static_cast<uint32_t>(tr_in(0)));
                }
                {
                    InRepo r(CB_UNDO);
                    c.prop.undo(ctl, d.data(), d.size(), c.pdata);
                }
                tr_out(0xE0D);
                break;
            }
            case TK_PROPAGATE: {
                std::vector<int> d(tr_in(0));
                for (auto &x : d) {
                    x = static_cast<int>(static_cast<uint32_t>(tr_in(0)));
                }
                bool ok = false;
                {
                    InRepo r(CB_PROPAGATE);
                    ok = c.prop.propagate(ctl, d.data(), d.size(), c.pdata);
                }
                tr_out(ok ? 1 : 0);
                break;
            }
            case TK_CHECK: {
                bool ok = false;
                {
                    InRepo r(CB_CHECK);
                    ok = c.prop.check(ctl, c.pdata);
                }
                tr_out(ok ? 1 : 0);
                break;
            }
            case TK_DECIDE: {
                int fb = static_cast<int>(static_cast<uint32_t>(tr_in(0)));
                int res = 0;
                bool ok = false;
                {
                    InRepo r(CB_DECIDE);
                    ok = c.prop.decide(static_cast<clingo_id_t>(tid), reinterpret_cast<clingo_assignment_t *>(&T), fb,
                                       c.pdata, &res);
                }
                tr_out(ok ? 1 : 0);
                tr_out(static_cast<uint32_t>(res));
                break;
            }
            case TK_MODEL: {
                ModelView mv;
                mv.t = &T;
                if (c.on_model) {
                    c.on_model(mv);
                }
                tr_out(0x30D);
                break;
            }
            default: {
                violation("isolation", "transcript of thread %d out of sync at %zu (%llx)", tid, pb.pos,
                          static_cast<unsigned long long>(k));
            }
        }
    }
}

// ------------------------------------------------------------------ observer
namespace {
bool ob_rule(bool choice, clingo_atom_t const *h, size_t hn, clingo_literal_t const *b, size_t bn, void *d) {
    Rule r{choice, {}, {}};
    for (size_t i = 0; i < hn; ++i) {
        r.head.push_back(static_cast<int>(h[i]));
    }
    r.body.assign(b, b + bn);
    static_cast<SimControl *>(d)->new_rules.push_back(std::move(r));
    return true;
}
bool ob_weight(bool choice, clingo_atom_t const *h, size_t hn, clingo_weight_t lb, clingo_weighted_literal_t const *b,
               size_t bn, void *d) {
    // only trivial bounds are supported
    if (lb <= 0) {
        return ob_rule(choice, h, hn, nullptr, 0, d);
    }
    clingo_weight_t sum = 0;
    std::vector<clingo_literal_t> ls;
    for (size_t i = 0; i < bn; ++i) {
        sum += b[i].weight;
        ls.push_back(b[i].literal);
    }
    if (sum == lb) {
        return ob_rule(choice, h, hn, ls.data(), ls.size(), d);
    }
    internal_error("weight rules are not supported");
}
bool ob_external(clingo_atom_t a, clingo_external_type_t t, void *d) {
    static_cast<SimControl *>(d)->ext[static_cast<int>(a)] = t;
    return true;
}
} // namespace

static void quiet_logger(clingo_warning_t, char const *msg, void *) { log("  clingo: %s", msg); }

static SimTheory &theory_of(void *data) {
    auto &c = *static_cast<SimControl *>(data);
    if (c.theory_closed) {
        c.theory_closed = false;
        c.theory.atoms.clear();
    }
    return c.theory;
}
static bool ob_tnumber(clingo_id_t id, int n, void *data) {
    theory_of(data).terms[id] = {clingo_theory_term_type_number, n, "", {}};
    return true;
}
static bool ob_tstring(clingo_id_t id, char const *name, void *data) {
    theory_of(data).terms[id] = {clingo_theory_term_type_symbol, 0, name, {}};
    return true;
}
static bool ob_tcompound(clingo_id_t id, int name, clingo_id_t const *as, size_t n, void *data) {
    auto ty = name >= 0    ? clingo_theory_term_type_function
              : name == -1 ? clingo_theory_term_type_tuple
              : name == -2 ? clingo_theory_term_type_set
                           : clingo_theory_term_type_list;
    theory_of(data).terms[id] = {ty, name, "", {as, as + n}};
    return true;
}
static bool ob_telement(clingo_id_t id, clingo_id_t const *ts, size_t n, clingo_literal_t const *ls, size_t m, void *data) {
    theory_of(data).elems[id] = {{ts, ts + n}, {ls, ls + m}};
    return true;
}
static bool ob_tatom(clingo_id_t a, clingo_id_t t, clingo_id_t const *es, size_t n, void *data) {
    theory_of(data).atoms.push_back({static_cast<int>(a), t, {es, es + n}, false, 0, 0});
    return true;
}
static bool ob_tguard(clingo_id_t a, clingo_id_t t, clingo_id_t const *es, size_t n, clingo_id_t op, clingo_id_t rhs,
                      void *data) {
    theory_of(data).atoms.push_back({static_cast<int>(a), t, {es, es + n}, true, op, rhs});
    return true;
}
static bool is_operator(std::string const &s) {
    return !s.empty() && strchr("/!<=>+-*\\?&@|:;~^.", s[0]) != nullptr;
}
std::string SimTheory::str(clingo_id_t t) const {
    auto const &x = terms.at(t);
    switch (x.type) {
        case clingo_theory_term_type_number: return std::to_string(x.number);
        case clingo_theory_term_type_symbol: return x.name;
        default: break;
    }
    auto name = x.type == clingo_theory_term_type_function ? terms.at(static_cast<clingo_id_t>(x.number)).name : "";
    if (is_operator(name) && x.args.size() == 1) {
        return "(" + name + str(x.args[0]) + ")";
    }
    if (is_operator(name) && x.args.size() == 2) {
        return "(" + str(x.args[0]) + name + str(x.args[1]) + ")";
    }
    auto r = name + (x.type == clingo_theory_term_type_set ? "{" : x.type == clingo_theory_term_type_list ? "[" : "(");
    for (size_t i = 0; i < x.args.size(); ++i) {
        r += (i > 0 ? "," : "") + str(x.args[i]);
    }
    if (x.type == clingo_theory_term_type_tuple && x.args.size() == 1) {
        r += ",";
    }
    return r + (x.type == clingo_theory_term_type_set ? "}" : x.type == clingo_theory_term_type_list ? "]" : ")");
}
std::string SimTheory::estr(clingo_id_t e) const {
    std::string r;
    for (auto t : elems.at(e).tuple) {
        r += (r.empty() ? "" : ",") + str(t);
    }
    for (size_t i = 0; i < elems.at(e).cond.size(); ++i) {
        r += (i == 0 ? ": " : ",") + std::to_string(elems.at(e).cond[i]);
    }
    return r;
}
std::string SimTheory::astr(clingo_id_t a) const {
    auto const &x = atoms.at(a);
    std::string r = "&" + str(x.term) + "{";
    for (size_t i = 0; i < x.elems.size(); ++i) {
        r += (i > 0 ? "; " : "") + estr(x.elems[i]);
    }
    r += "}";
    if (x.guard) {
        r += terms.at(x.op).name + str(x.rhs);
    }
    return r;
}
SimControl *sim_control_new(int stream) {
    auto *c = new SimControl;
    c->cfg.stream = stream;
    c->own = true;
    must(clingo_control_new(nullptr, 0, quiet_logger, nullptr, 1000, &c->real), "control_new");
    static clingo_ground_program_observer_t ob = []() {
        clingo_ground_program_observer_t o{};
        o.rule = ob_rule;
        o.weight_rule = ob_weight;
        o.external = ob_external;
        o.theory_term_number = ob_tnumber;
        o.theory_term_string = ob_tstring;
        o.theory_term_compound = ob_tcompound;
        o.theory_element = ob_telement;
        o.theory_atom = ob_tatom;
        o.theory_atom_with_guard = ob_tguard;
        return o;
    }();
    must(clingo_control_register_observer(c->real, &ob, false, c), "register_observer");
    clingo_control_set_enable_cleanup(c->real, false);
    registry()[c->real] = c;
    return c;
}
void sim_control_free(SimControl *c) {
    registry().erase(c->real);
    clingo_control_free(c->real);
    delete c;
}
SimControl *sim_control_of(clingo_control_t *c) {
    auto it = registry().find(c);
    if (it == registry().end()) {
        internal_error("unknown control");
    }
    return it->second;
}

// ------------------------------------------------------------------ C interface
#define API(fn, may)                                                                                                   \
    Api a_(F_##fn, may);                                                                                               \
    if (a_.fail()) return false
#define APIV(fn) Api a_(F_##fn, false)

static SThread const &A(clingo_assignment_t const *a) { return *reinterpret_cast<SThread const *>(a); }
static bool bad_lit(SThread const &t, int l) {
    if (l == 0 || abs(l) > t.c.nvars) {
        violation("api-misuse", "the library asked for literal %d which does not exist (%d variables)", l, t.c.nvars);
    }
    return false;
}

extern "C" {
uint32_t sim_clingo_assignment_decision_level(clingo_assignment_t const *a) {
    APIV(assignment_decision_level);
    return static_cast<uint32_t>(resp([&]() { return A(a).level(); }));
}
uint32_t sim_clingo_assignment_root_level(clingo_assignment_t const *a) {
    APIV(assignment_root_level);
    return static_cast<uint32_t>(resp([&]() { return A(a).root; }));
}
bool sim_clingo_assignment_has_conflict(clingo_assignment_t const *a) {
    APIV(assignment_has_conflict);
    return resp([&]() { return A(a).has_conflict; }) != 0;
}
bool sim_clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) {
    APIV(assignment_has_literal);
    tr_out(static_cast<uint32_t>(l));
    return resp([&]() { return l != 0 && abs(l) <= A(a).c.nvars; }) != 0;
}
bool sim_clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *level) {
    API(assignment_level, true);
    tr_out(static_cast<uint32_t>(l));
    *level = static_cast<uint32_t>(resp([&]() {
        bad_lit(A(a), l);
        return A(a).value(l) == 0 ? UINT32_MAX : A(a).lev[static_cast<size_t>(abs(l))];
    }));
    return true;
}
bool sim_clingo_assignment_decision(clingo_assignment_t const *a, uint32_t level, clingo_literal_t *lit) {
    API(assignment_decision, true);
    tr_out(level);
    *lit = static_cast<int>(static_cast<uint32_t>(resp([&]() {
        if (level > A(a).lim.size()) {
            violation("api-misuse", "decision of level %u requested on level %zu", level, A(a).lim.size());
        }
        return static_cast<uint32_t>(level == 0 ? 1 : A(a).trail[A(a).lim[level - 1]]);
    })));
    return true;
}
bool sim_clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    API(assignment_is_fixed, true);
    tr_out(static_cast<uint32_t>(l));
    *r = resp([&]() { return !bad_lit(A(a), l) && A(a).fixed(l); }) != 0;
    return true;
}
bool sim_clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    API(assignment_is_true, true);
    tr_out(static_cast<uint32_t>(l));
    *r = resp([&]() { return !bad_lit(A(a), l) && A(a).value(l) == 1; }) != 0;
    return true;
}
bool sim_clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) {
    API(assignment_is_false, true);
    tr_out(static_cast<uint32_t>(l));
    *r = resp([&]() { return !bad_lit(A(a), l) && A(a).value(l) == -1; }) != 0;
    return true;
}
bool sim_clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) {
    API(assignment_truth_value, true);
    tr_out(static_cast<uint32_t>(l));
    *r = static_cast<clingo_truth_value_t>(resp([&]() {
        bad_lit(A(a), l);
        int v = A(a).value(l);
        return v == 0 ? clingo_truth_value_free : v > 0 ? clingo_truth_value_true : clingo_truth_value_false;
    }));
    return true;
}
size_t sim_clingo_assignment_size(clingo_assignment_t const *a) {
    APIV(assignment_size);
    return resp([&]() { return A(a).c.nvars; });
}
bool sim_clingo_assignment_at(clingo_assignment_t const *a, size_t o, clingo_literal_t *l) {
    API(assignment_at, true);
    static_cast<void>(a);
    *l = static_cast<int>(o) + 1;
    return true;
}
bool sim_clingo_assignment_is_total(clingo_assignment_t const *a) {
    APIV(assignment_is_total);
    return resp([&]() { return A(a).total(); }) != 0;
}
bool sim_clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *n) {
    API(assignment_trail_size, true);
    *n = static_cast<uint32_t>(resp([&]() { return A(a).trail.size(); }));
    return true;
}
bool sim_clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t l, uint32_t *n) {
    API(assignment_trail_begin, true);
    tr_out(l);
    *n = static_cast<uint32_t>(resp([&]() { return l == 0 ? 0 : A(a).lim.at(l - 1); }));
    return true;
}
bool sim_clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t l, uint32_t *n) {
    API(assignment_trail_end, true);
    tr_out(l);
    *n = static_cast<uint32_t>(resp([&]() { return l < A(a).lim.size() ? A(a).lim[l] : A(a).trail.size(); }));
    return true;
}
bool sim_clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t o, clingo_literal_t *l) {
    API(assignment_trail_at, true);
    tr_out(o);
    *l = static_cast<int>(static_cast<uint32_t>(resp([&]() { return static_cast<uint32_t>(A(a).trail.at(o)); })));
    return true;
}

// ---- init
static SimControl &I(clingo_propagate_init_t const *i) {
    return *const_cast<SimControl *>(reinterpret_cast<SimControl const *>(i));
}
bool sim_clingo_propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t l,
                                              clingo_literal_t *r) {
    API(propagate_init_solver_literal, true);
    *r = l == 0 ? -1 : I(i).plit(l);
    return true;
}
static void init_watch(SimControl &c, int lit, int thread, bool add) {
    bad_lit(*c.threads[0], lit);
    for (size_t t = 0; t < c.init_watches.size(); ++t) {
        if (thread < 0 || static_cast<size_t>(thread) == t) {
            c.init_watches[t].emplace_back(lit, add);
        }
    }
    if (thread >= static_cast<int>(c.init_watches.size())) {
        violation("api-misuse", "watch added for thread %d of %zu", thread, c.init_watches.size());
    }
}
bool sim_clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    API(propagate_init_add_watch, true);
    init_watch(I(i), l, -1, true);
    return true;
}
bool sim_clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t t) {
    API(propagate_init_add_watch_to_thread, true);
    init_watch(I(i), l, static_cast<int>(t), true);
    return true;
}
bool sim_clingo_propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    API(propagate_init_remove_watch, true);
    init_watch(I(i), l, -1, false);
    return true;
}
bool sim_clingo_propagate_init_remove_watch_from_thread(clingo_propagate_init_t *i, clingo_literal_t l, uint32_t t) {
    API(propagate_init_remove_watch_from_thread, true);
    init_watch(I(i), l, static_cast<int>(t), false);
    return true;
}
bool sim_clingo_propagate_init_freeze_literal(clingo_propagate_init_t *i, clingo_literal_t l) {
    API(propagate_init_freeze_literal, true);
    bad_lit(*I(i).threads[0], l);
    return true;
}
bool sim_clingo_propagate_init_symbolic_atoms(clingo_propagate_init_t const *i, clingo_symbolic_atoms_t const **a) {
    API(propagate_init_symbolic_atoms, true);
    return clingo_control_symbolic_atoms(I(i).real, a);
}
bool sim_clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **a) {
    API(propagate_init_theory_atoms, true);
    *a = reinterpret_cast<clingo_theory_atoms_t const *>(&I(i).theory);
    return true;
}
int sim_clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) {
    APIV(propagate_init_number_of_threads);
    return static_cast<int>(I(i).threads.size());
}
void sim_clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) {
    APIV(propagate_init_set_check_mode);
    I(i).check_mode = m;
}
clingo_propagator_check_mode_t sim_clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) {
    APIV(propagate_init_get_check_mode);
    return I(i).check_mode;
}
clingo_assignment_t const *sim_clingo_propagate_init_assignment(clingo_propagate_init_t const *i) {
    APIV(propagate_init_assignment);
    return reinterpret_cast<clingo_assignment_t const *>(I(i).threads[0].get());
}
bool sim_clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool freeze, clingo_literal_t *r) {
    API(propagate_init_add_literal, true);
    static_cast<void>(freeze);
    int v = I(i).new_var();
    I(i).aux.insert(v);
    *r = v;
    return true;
}
bool sim_clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *cl, size_t n, bool *r) {
    API(propagate_init_add_clause, true);
    auto &c = I(i);
    std::vector<int> lits(cl, cl + n);
    for (int l : lits) {
        bad_lit(*c.threads[0], l);
    }
    if (sh->verbose) {
        std::string s;
        for (int x : lits) {
            s += " " + std::to_string(x);
        }
        log("  init clause:%s", s.c_str());
    }
    if (c.hooks.clause) {
        c.hooks.clause(nullptr, lits, 0, true);
    }
    *r = c.add_problem(lits);
    return true;
}
bool sim_clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *, clingo_literal_t,
                                                     clingo_weighted_literal_t const *, size_t, clingo_weight_t,
                                                     clingo_weight_constraint_type_t, bool, bool *) {
    internal_error("add_weight_constraint is not simulated");
}
bool sim_clingo_propagate_init_add_minimize(clingo_propagate_init_t *, clingo_literal_t, clingo_weight_t,
                                            clingo_weight_t) {
    internal_error("add_minimize is not simulated");
}
bool sim_clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *r) {
    API(propagate_init_propagate, true);
    auto &c = I(i);
    if (!c.unsat && !c.threads[0]->up()) {
        c.unsat = true;
        c.threads[0]->has_conflict = false;
    }
    *r = !c.unsat;
    return true;
}

// ---- control
// ---- theory atoms
static SimTheory const &TH(clingo_theory_atoms_t const *a) { return *reinterpret_cast<SimTheory const *>(a); }
static bool to_str(std::string const &s, char *str, size_t n) {
    if (n < s.size() + 1) {
        clingo_set_error(clingo_error_runtime, "string too small");
        return false;
    }
    memcpy(str, s.c_str(), s.size() + 1);
    return true;
}
bool sim_clingo_control_theory_atoms(clingo_control_t const *c, clingo_theory_atoms_t const **a) {
    API(control_theory_atoms, true);
    *a = reinterpret_cast<clingo_theory_atoms_t const *>(&sim_control_of(const_cast<clingo_control_t *>(c))->theory);
    return true;
}
bool sim_clingo_theory_atoms_term_type(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_theory_term_type_t *r) {
    API(theory_atoms_term_type, true);
    *r = TH(a).terms.at(t).type;
    return true;
}
bool sim_clingo_theory_atoms_term_number(clingo_theory_atoms_t const *a, clingo_id_t t, int *r) {
    API(theory_atoms_term_number, true);
    *r = TH(a).terms.at(t).number;
    return true;
}
bool sim_clingo_theory_atoms_term_name(clingo_theory_atoms_t const *a, clingo_id_t t, char const **r) {
    API(theory_atoms_term_name, true);
    auto const &x = TH(a).terms.at(t);
    *r = x.type == clingo_theory_term_type_function ? TH(a).terms.at(static_cast<clingo_id_t>(x.number)).name.c_str()
                                                    : x.name.c_str();
    return true;
}
bool sim_clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t const **r,
                                            size_t *n) {
    API(theory_atoms_term_arguments, true);
    auto const &x = TH(a).terms.at(t);
    *r = x.args.data();
    *n = x.args.size();
    return true;
}
bool sim_clingo_theory_atoms_term_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t t, size_t *n) {
    API(theory_atoms_term_to_string_size, true);
    *n = TH(a).str(t).size() + 1;
    return true;
}
bool sim_clingo_theory_atoms_term_to_string(clingo_theory_atoms_t const *a, clingo_id_t t, char *s, size_t n) {
    API(theory_atoms_term_to_string, true);
    return to_str(TH(a).str(t), s, n);
}
bool sim_clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_id_t const **r,
                                           size_t *n) {
    API(theory_atoms_element_tuple, true);
    auto const &x = TH(a).elems.at(e).tuple;
    *r = x.data();
    *n = x.size();
    return true;
}
bool sim_clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *a, clingo_id_t e,
                                               clingo_literal_t const **r, size_t *n) {
    API(theory_atoms_element_condition, true);
    auto const &x = TH(a).elems.at(e).cond;
    *r = x.data();
    *n = x.size();
    return true;
}
bool sim_clingo_theory_atoms_element_condition_id(clingo_theory_atoms_t const *, clingo_id_t, clingo_literal_t *) {
    internal_error("element_condition_id is not simulated");
}
bool sim_clingo_theory_atoms_element_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t e, size_t *n) {
    API(theory_atoms_element_to_string_size, true);
    *n = TH(a).estr(e).size() + 1;
    return true;
}
bool sim_clingo_theory_atoms_element_to_string(clingo_theory_atoms_t const *a, clingo_id_t e, char *s, size_t n) {
    API(theory_atoms_element_to_string, true);
    return to_str(TH(a).estr(e), s, n);
}
bool sim_clingo_theory_atoms_size(clingo_theory_atoms_t const *a, size_t *n) {
    API(theory_atoms_size, true);
    *n = TH(a).atoms.size();
    return true;
}
bool sim_clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_id_t *r) {
    API(theory_atoms_atom_term, true);
    *r = TH(a).atoms.at(x).term;
    return true;
}
bool sim_clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_id_t const **r,
                                           size_t *n) {
    API(theory_atoms_atom_elements, true);
    auto const &es = TH(a).atoms.at(x).elems;
    *r = es.data();
    *n = es.size();
    return true;
}
bool sim_clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *a, clingo_id_t x, bool *r) {
    API(theory_atoms_atom_has_guard, true);
    *r = TH(a).atoms.at(x).guard;
    return true;
}
bool sim_clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *a, clingo_id_t x, char const **op, clingo_id_t *r) {
    API(theory_atoms_atom_guard, true);
    auto const &y = TH(a).atoms.at(x);
    if (!y.guard) {
        clingo_set_error(clingo_error_logic, "no guard");
        return false;
    }
    *op = TH(a).terms.at(y.op).name.c_str();
    *r = y.rhs;
    return true;
}
bool sim_clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_literal_t *r) {
    API(theory_atoms_atom_literal, true);
    *r = TH(a).atoms.at(x).lit;
    return true;
}
bool sim_clingo_theory_atoms_atom_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t x, size_t *n) {
    API(theory_atoms_atom_to_string_size, true);
    *n = TH(a).astr(x).size() + 1;
    return true;
}
bool sim_clingo_theory_atoms_atom_to_string(clingo_theory_atoms_t const *a, clingo_id_t x, char *s, size_t n) {
    API(theory_atoms_atom_to_string, true);
    return to_str(TH(a).astr(x), s, n);
}

// ---- control
static SPropCtl &C(clingo_propagate_control_t const *c) {
    return *const_cast<SPropCtl *>(reinterpret_cast<SPropCtl const *>(c));
}
clingo_id_t sim_clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) {
    APIV(propagate_control_thread_id);
    return static_cast<clingo_id_t>(C(c).t->id);
}
clingo_assignment_t const *sim_clingo_propagate_control_assignment(clingo_propagate_control_t const *c) {
    APIV(propagate_control_assignment);
    return reinterpret_cast<clingo_assignment_t const *>(C(c).t);
}
bool sim_clingo_propagate_control_add_literal(clingo_propagate_control_t *, clingo_literal_t *) {
    internal_error("add_literal during search is not simulated");
}
bool sim_clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    API(propagate_control_add_watch, true);
    tr_out(static_cast<uint32_t>(l));
    if (!pb.active) {
        bad_lit(*C(c).t, l);
        C(c).t->watch.insert(l);
        ++C(c).t->watch_calls;
    }
    return true;
}
bool sim_clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) {
    APIV(propagate_control_has_watch);
    tr_out(static_cast<uint32_t>(l));
    return resp([&]() { return C(c).t->watch.count(l) != 0; }) != 0;
}
void sim_clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) {
    APIV(propagate_control_remove_watch);
    tr_out(static_cast<uint32_t>(l));
    if (!pb.active) {
        bad_lit(*C(c).t, l);
        C(c).t->watch.erase(l);
        ++C(c).t->watch_calls;
    }
}
bool sim_clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *cl, size_t n,
                                             clingo_clause_type_t type, bool *r) {
    API(propagate_control_add_clause, true);
    bool learnt = (type & clingo_clause_type_static) == 0;
    tr_lits(cl, n);
    *r = resp([&]() -> bool {
        auto &T = *C(c).t;
        std::vector<int> lits(cl, cl + n);
        for (int l : lits) {
            bad_lit(T, l);
        }
        if (T.in_undo) {
            violation("api-misuse", "clause added in undo");
        }
        if (T.has_conflict || T.has_todo) {
            violation("clause-refused", "a clause is handed to the solver although the previous one led to a conflict "
                                        "or has not been propagated; the real solver refuses it");
        }
        auto copy = lits;
        uint32_t dl = 0;
        auto s = T.status(copy, dl);
        count(theory_clauses);
        bool low = (s == AS_UNIT || s == AS_CONFLICT) && dl < T.lim.size() && T.lim.size() > T.root;
        int st = s == AS_UNIT ? (low ? AS_PENDING_UNIT : AS_UNIT)
                              : s == AS_CONFLICT ? (low ? AS_PENDING_CONFLICT : AS_CONFLICT) : s;
        if (sh->verbose) {
            std::string str;
            for (int x : lits) {
                str += " " + std::to_string(x);
            }
            log("  [%d] theory clause (status %d):%s", T.id, st, str.c_str());
        }
        count(s == AS_UNIT ? theory_units
                           : s == AS_CONFLICT ? theory_conflicts : s == AS_FREE ? clause_multi_free : clause_satisfied);
        if (T.c.hooks.clause) {
            T.c.hooks.clause(&T, lits, st, false);
        }
        if (((type & clingo_clause_type_volatile) != 0)) {
            lits.push_back(-T.c.step_var); // valid in this step only
        }
        if (T.c.cfg.share > 0 && T.c.threads.size() > 1 && chance(T.c.cfg.stream, static_cast<uint32_t>(T.c.cfg.share))) {
            count(shared_clauses);
            T.c.inbox.emplace_back(T.id, lits);
        }
        event(0x70000 + static_cast<uint64_t>(st));
        if (low) {
            count(backjump_clauses);
            T.todo = lits;
            T.has_todo = true;
            T.todo_learnt = learnt;
            return false;
        }
        return T.add(lits, learnt, true);
    }) != 0;
    return true;
}
bool sim_clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) {
    API(propagate_control_propagate, true);
    *r = resp([&]() -> bool {
        auto &T = *C(c).t;
        if (T.has_conflict || T.has_todo) {
            return false;
        }
        if (T.qhead == T.trail.size()) {
            return true;
        }
        auto &cfg = T.c.cfg;
        if (T.c.stop && cfg.stop_inside == 0 && T.c.interrupted_inside) {
            return false;
        }
        if (cfg.stop_inside > 0 && (!cfg.stop_inside_root || T.lim.empty()) && --cfg.stop_inside == 0) {
            // a message to terminate is handled before the propagation gets to the end
            count(fault_interrupt_inside);
            log("  FAULT: interrupt while a callback propagates");
            T.c.interrupted = T.c.interrupted_inside = true;
            T.c.stop = true;
            return false;
        }
        return C(c).prop && T.up();
    }) != 0;
    return true;
}

// ---- models
static ModelView &M(clingo_model_t const *m) {
    return *const_cast<ModelView *>(reinterpret_cast<ModelView const *>(m));
}
bool sim_clingo_model_type(clingo_model_t const *, clingo_model_type_t *t) {
    API(model_type, true);
    *t = 0;
    return true;
}
bool sim_clingo_model_number(clingo_model_t const *m, uint64_t *n) {
    API(model_number, true);
    *n = resp([&]() { return M(m).number; });
    return true;
}
static std::vector<clingo_symbol_t> model_atoms(ModelView &m, clingo_show_type_bitset_t show) {
    std::vector<clingo_symbol_t> r;
    if ((show & (clingo_show_type_atoms | clingo_show_type_shown)) != 0) {
        for (auto const &s : m.t->c.syms) {
            if (s.plit == 0 || m.t->value(m.t->c.plit(s.plit)) == 1) {
                r.push_back(s.sym);
            }
        }
    }
    if ((show & (clingo_show_type_theory | clingo_show_type_shown)) != 0) {
        r.insert(r.end(), m.extended.begin(), m.extended.end());
    }
    return r;
}
bool sim_clingo_model_symbols_size(clingo_model_t const *m, clingo_show_type_bitset_t s, size_t *n) {
    API(model_symbols_size, true);
    *n = model_atoms(M(m), s).size();
    return true;
}
bool sim_clingo_model_symbols(clingo_model_t const *m, clingo_show_type_bitset_t s, clingo_symbol_t *b, size_t n) {
    API(model_symbols, true);
    auto v = model_atoms(M(m), s);
    CHECK_INTERNAL(v.size() <= n);
    std::copy(v.begin(), v.end(), b);
    return true;
}
bool sim_clingo_model_contains(clingo_model_t const *m, clingo_symbol_t a, bool *r) {
    API(model_contains, true);
    auto v = model_atoms(M(m), clingo_show_type_atoms);
    *r = std::find(v.begin(), v.end(), a) != v.end();
    return true;
}
bool sim_clingo_model_is_true(clingo_model_t const *m, clingo_literal_t l, bool *r) {
    API(model_is_true, true);
    *r = M(m).t->value(M(m).t->c.plit(l)) == 1;
    return true;
}
bool sim_clingo_model_cost_size(clingo_model_t const *, size_t *n) {
    API(model_cost_size, true);
    *n = 0;
    return true;
}
bool sim_clingo_model_cost(clingo_model_t const *, int64_t *, size_t) {
    API(model_cost, true);
    return true;
}
bool sim_clingo_model_optimality_proven(clingo_model_t const *, bool *p) {
    API(model_optimality_proven, true);
    *p = false;
    return true;
}
bool sim_clingo_model_thread_id(clingo_model_t const *m, clingo_id_t *id) {
    API(model_thread_id, true);
    *id = static_cast<clingo_id_t>(M(m).t->id);
    return true;
}
bool sim_clingo_model_extend(clingo_model_t *m, clingo_symbol_t const *s, size_t n) {
    API(model_extend, true);
    tr_out(n);
    for (size_t i = 0; i < n; ++i) {
        uint64_t h = 0;
        for (char ch : sym_str(s[i])) {
            h = (h ^ static_cast<unsigned char>(ch)) * 0x100000001b3ull;
        }
        tr_out(h);
    }
    M(m).extended.insert(M(m).extended.end(), s, s + n);
    ++M(m).extend_calls;
    return true;
}
bool sim_clingo_model_context(clingo_model_t const *m, clingo_solve_control_t **c) {
    API(model_context, true);
    *c = reinterpret_cast<clingo_solve_control_t *>(const_cast<clingo_model_t *>(m));
    return true;
}
bool sim_clingo_solve_control_symbolic_atoms(clingo_solve_control_t const *m, clingo_symbolic_atoms_t const **a) {
    API(solve_control_symbolic_atoms, true);
    return clingo_control_symbolic_atoms(M(reinterpret_cast<clingo_model_t const *>(m)).t->c.real, a);
}
bool sim_clingo_solve_control_add_clause(clingo_solve_control_t *, clingo_literal_t const *, size_t) {
    internal_error("solve_control_add_clause is not simulated");
}

// ---- solve handles
bool sim_clingo_solve_handle_get(clingo_solve_handle_t *h, clingo_solve_result_bitset_t *r) {
    API(solve_handle_get, true);
    auto &x = *reinterpret_cast<SimHandle *>(h);
    if (!x.r.ok) {
        clingo_set_error(x.c->error_code != 0 ? x.c->error_code : clingo_error_runtime, x.r.error.c_str());
        return false;
    }
    *r = static_cast<clingo_solve_result_bitset_t>(x.r.bits);
    return true;
}
void sim_clingo_solve_handle_wait(clingo_solve_handle_t *, double, bool *r) {
    APIV(solve_handle_wait);
    *r = true;
}
bool sim_clingo_solve_handle_model(clingo_solve_handle_t *, clingo_model_t const **m) {
    API(solve_handle_model, true);
    *m = nullptr;
    return true;
}
bool sim_clingo_solve_handle_core(clingo_solve_handle_t *, clingo_literal_t const **c, size_t *n) {
    API(solve_handle_core, true);
    *c = nullptr;
    *n = 0;
    return true;
}
bool sim_clingo_solve_handle_resume(clingo_solve_handle_t *) {
    API(solve_handle_resume, true);
    return true;
}
bool sim_clingo_solve_handle_cancel(clingo_solve_handle_t *) {
    API(solve_handle_cancel, true);
    return true;
}
bool sim_clingo_solve_handle_close(clingo_solve_handle_t *h) {
    APIV(solve_handle_close);
    auto *x = reinterpret_cast<SimHandle *>(h);
    auto &hs = x->c->handles;
    for (auto it = hs.begin(); it != hs.end(); ++it) {
        if (it->get() == x) {
            hs.erase(it);
            return true;
        }
    }
    violation("api-misuse", "solve handle closed twice");
}
bool sim_clingo_control_solve(clingo_control_t *ctl, clingo_solve_mode_bitset_t mode, clingo_literal_t const *as,
                              size_t n, clingo_solve_event_callback_t notify, void *data, clingo_solve_handle_t **h) {
    API(control_solve, true);
    auto &c = *sim_control_of(ctl);
    CHECK_INTERNAL((mode & clingo_solve_mode_yield) == 0);
    c.notify = notify;
    c.notify_data = data;
    auto r = c.solve(std::vector<int>(as, as + n));
    c.notify = nullptr;
    c.handles.emplace_back(new SimHandle{&c, r});
    *h = reinterpret_cast<clingo_solve_handle_t *>(c.handles.back().get());
    return true;
}
bool sim_clingo_control_register_propagator(clingo_control_t *ctl, clingo_propagator_t const *p, void *data, bool seq) {
    API(control_register_propagator, true);
    static_cast<void>(seq);
    auto &c = *sim_control_of(ctl);
    CHECK_INTERNAL(!c.registered);
    c.registered = true;
    c.prop = *p;
    c.pdata = data;
    return true;
}

// ---- statistics
static SimStats &ST(clingo_statistics_t const *s) {
    return *const_cast<SimStats *>(reinterpret_cast<SimStats const *>(s));
}
static StatNode &SN(clingo_statistics_t const *s, uint64_t k, int type) {
    auto &x = ST(s);
    if (k >= x.nodes.size()) {
        violation("api-misuse", "invalid statistics key");
    }
    if (type >= 0 && x.nodes[k].type != type) {
        violation("api-misuse", "statistics entry has type %d instead of %d", x.nodes[k].type, type);
    }
    return x.nodes[k];
}
bool sim_clingo_statistics_root(clingo_statistics_t const *, uint64_t *k) {
    API(statistics_root, true);
    *k = 0;
    return true;
}
bool sim_clingo_statistics_type(clingo_statistics_t const *s, uint64_t k, clingo_statistics_type_t *t) {
    API(statistics_type, true);
    *t = SN(s, k, -1).type;
    return true;
}
bool sim_clingo_statistics_array_size(clingo_statistics_t const *s, uint64_t k, size_t *n) {
    API(statistics_array_size, true);
    *n = SN(s, k, clingo_statistics_type_array).arr.size();
    return true;
}
bool sim_clingo_statistics_array_at(clingo_statistics_t const *s, uint64_t k, size_t o, uint64_t *r) {
    API(statistics_array_at, true);
    auto &a = SN(s, k, clingo_statistics_type_array).arr;
    if (o >= a.size()) {
        clingo_set_error(clingo_error_logic, "statistics index out of range");
        return false;
    }
    *r = a[o];
    return true;
}
bool sim_clingo_statistics_array_push(clingo_statistics_t *s, uint64_t k, clingo_statistics_type_t t, uint64_t *r) {
    API(statistics_array_push, true);
    SN(s, k, clingo_statistics_type_array);
    auto id = ST(s).nodes.size();
    ST(s).nodes.push_back(StatNode{static_cast<int>(t), 0, {}, {}});
    ST(s).nodes[k].arr.push_back(id);
    *r = id;
    return true;
}
bool sim_clingo_statistics_map_size(clingo_statistics_t const *s, uint64_t k, size_t *n) {
    API(statistics_map_size, true);
    *n = SN(s, k, clingo_statistics_type_map).map.size();
    return true;
}
bool sim_clingo_statistics_map_has_subkey(clingo_statistics_t const *s, uint64_t k, char const *name, bool *r) {
    API(statistics_map_has_subkey, true);
    SN(s, k, clingo_statistics_type_map);
    *r = ST(s).find(k, name) != 0;
    return true;
}
bool sim_clingo_statistics_map_subkey_name(clingo_statistics_t const *s, uint64_t k, size_t o, char const **name) {
    API(statistics_map_subkey_name, true);
    *name = SN(s, k, clingo_statistics_type_map).map.at(o).first.c_str();
    return true;
}
bool sim_clingo_statistics_map_at(clingo_statistics_t const *s, uint64_t k, char const *name, uint64_t *r) {
    API(statistics_map_at, true);
    SN(s, k, clingo_statistics_type_map);
    *r = ST(s).find(k, name);
    if (*r == 0) {
        clingo_set_error(clingo_error_runtime, "unknown statistics key");
        return false;
    }
    return true;
}
bool sim_clingo_statistics_map_add_subkey(clingo_statistics_t *s, uint64_t k, char const *name,
                                          clingo_statistics_type_t t, uint64_t *r) {
    API(statistics_map_add_subkey, true);
    SN(s, k, clingo_statistics_type_map);
    *r = ST(s).find(k, name);
    if (*r == 0) {
        *r = ST(s).nodes.size();
        ST(s).nodes.push_back(StatNode{static_cast<int>(t), 0, {}, {}});
        ST(s).nodes[k].map.emplace_back(name, *r);
    } else if (ST(s).nodes[*r].type != static_cast<int>(t)) {
        clingo_set_error(clingo_error_runtime, "statistics key exists with a different type");
        return false;
    }
    return true;
}
bool sim_clingo_statistics_value_get(clingo_statistics_t const *s, uint64_t k, double *v) {
    API(statistics_value_get, true);
    *v = SN(s, k, clingo_statistics_type_value).value;
    return true;
}
bool sim_clingo_statistics_value_set(clingo_statistics_t *s, uint64_t k, double v) {
    API(statistics_value_set, true);
    SN(s, k, clingo_statistics_type_value).value = v;
    return true;
}

// ---- application
struct SimOption {
    bool (*parse)(char const *value, void *data){nullptr};
    void *data{nullptr};
    bool *flag{nullptr};
    bool multi{false};
};
typedef std::map<std::string, SimOption> SimOptions;
bool sim_clingo_options_add(clingo_options_t *o, char const *, char const *name, char const *,
                            bool (*parse)(char const *value, void *data), void *data, bool multi, char const *) {
    API(options_add, true);
    (*reinterpret_cast<SimOptions *>(o))[name] = SimOption{parse, data, nullptr, multi};
    return true;
}
bool sim_clingo_options_add_flag(clingo_options_t *o, char const *, char const *name, char const *, bool *target) {
    API(options_add_flag, true);
    (*reinterpret_cast<SimOptions *>(o))[name] = SimOption{nullptr, nullptr, target, false};
    return true;
}
// Returns 0 on success, 65 on option errors, 33 on other errors.
int sim_clingo_main(clingo_application_t *app, char const *const *args, size_t n, void *data) {
    APIV(main);
    SimOptions opts;
    bool ok = true;
    if (app->register_options != nullptr) {
        InRepo r(CB_CLIENT);
        ok = app->register_options(reinterpret_cast<clingo_options_t *>(&opts), data);
    }
    std::vector<std::string> files;
    for (size_t i = 0; ok && i < n; ++i) {
        std::string a = args[i];
        if (a.rfind("--", 0) != 0) {
            files.push_back(a);
            continue;
        }
        auto eq = a.find('=');
        auto key = a.substr(2, eq == std::string::npos ? std::string::npos : eq - 2);
        auto val = eq == std::string::npos ? std::string() : a.substr(eq + 1);
        auto it = opts.find(key);
        if (it == opts.end()) {
            internal_error("unknown option %s", key.c_str());
        }
        if (it->second.flag != nullptr) {
            *it->second.flag = val.empty() || val == "yes" || val == "1" || val == "on";
        } else {
            InRepo r(CB_CLIENT);
            ok = it->second.parse(val.c_str(), it->second.data);
        }
    }
    if (ok && app->validate_options != nullptr) {
        InRepo r(CB_CLIENT);
        ok = app->validate_options(data);
    }
    if (!ok) {
        return 65;
    }
    auto *c = sim_control_new(S_SEARCH);
    if (main_control_hook) {
        main_control_hook(*c);
    }
    std::vector<char const *> fs;
    for (auto &f : files) {
        fs.push_back(f.c_str());
    }
    {
        InRepo r(CB_CLIENT);
        ok = app->main(c->real, fs.data(), fs.size(), data);
    }
    if (!ok) {
        snprintf(sh->note, sizeof sh->note, "%s", clingo_error_message() != nullptr ? clingo_error_message() : "");
    }
    sim_control_free(c);
    return ok ? 0 : 33;
}

// ---- parsing with callbacks into the library
struct AstTrampoline {
    clingo_ast_callback_t cb;
    void *data;
};
static bool ast_trampoline(clingo_ast_t *ast, void *data) {
    auto &t = *static_cast<AstTrampoline *>(data);
    InRepo r(CB_AST);
    return t.cb(ast, t.data);
}
bool sim_clingo_ast_parse_string(char const *program, clingo_ast_callback_t cb, void *data, clingo_control_t *ctl,
                                 clingo_logger_t, void *, unsigned) {
    API(ast_parse_string, true);
    AstTrampoline t{cb, data};
    return clingo_ast_parse_string(program, ast_trampoline, &t, ctl, quiet_logger, nullptr, 1000);
}
bool sim_clingo_ast_parse_files(char const *const *files, size_t n, clingo_ast_callback_t cb, void *data,
                                clingo_control_t *ctl, clingo_logger_t, void *, unsigned) {
    API(ast_parse_files, true);
    AstTrampoline t{cb, data};
    for (size_t i = 0; i < n; ++i) {
        auto it = sim_files.find(files[i]);
        if (it == sim_files.end()) {
            clingo_set_error(clingo_error_runtime, "file could not be opened");
            return false;
        }
        if (!clingo_ast_parse_string(it->second.c_str(), ast_trampoline, &t, ctl, quiet_logger, nullptr, 1000)) {
            return false;
        }
    }
    return true;
}
// the hash of clingo depends on addresses
size_t sim_clingo_symbol_hash(clingo_symbol_t sym) {
    API(symbol_hash, false);
    static std::map<clingo_symbol_t, size_t> cache;
    size_t const salt = symbol_salt() + env.salt;
    auto [it, ins] = cache.emplace(sym, 0);
    if (ins) {
        uint64_t h = 1469598103934665603ull + salt * 0x9e3779b97f4a7c15ull;
        for (unsigned char ch : sym_str(sym)) {
            h = (h ^ ch) * 1099511628211ull;
        }
        it->second = h ^ (h >> 29);
    }
    return it->second;
}
bool sim_clingo_ast_unpool(clingo_ast_t *ast, clingo_ast_unpool_type_bitset_t ty, clingo_ast_callback_t cb, void *data) {
    API(ast_unpool, true);
    AstTrampoline t{cb, data};
    return clingo_ast_unpool(ast, ty, ast_trampoline, &t);
}
}
size_t symbol_salt() {
    static size_t const salt = draw(S_CFG, 4);
    return salt;
}
