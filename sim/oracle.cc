#include "oracle.hh"
#include <algorithm>
#include <cmath>
#include <string_view>
#include <unordered_set>

char const *const rel_names[6] = {"<=", "<", ">=", ">", "=", "!="};
int64_t wscale = 1;
bool real_mode = false;
static bool decimals = false;
void set_real(int mode) {
    real_mode = mode != 0;
    decimals = mode == 2;
    wscale = mode == 0 ? 1 : decimals ? 1000000 : (int64_t{1} << 22); // 2^21 per half
}
static std::vector<std::string> &names() {
    static auto *n = new std::vector<std::string>{"0"};
    return *n;
}
int vid(std::string const &name) {
    auto &n = names();
    for (size_t i = 0; i < n.size(); ++i) {
        if (n[i] == name) {
            return static_cast<int>(i);
        }
    }
    n.push_back(name);
    return static_cast<int>(n.size()) - 1;
}
std::string const &vname(int id) { return names()[static_cast<size_t>(id)]; }
int num_vids() { return static_cast<int>(names().size()); }
Con negate(Con c) {
    static int const neg[6] = {GT, GE, LT, LE, NE, EQ};
    c.rel = neg[c.rel];
    return c;
}
std::string con_str(Con const &c) {
    return vname(c.u) + "-" + vname(c.v) + rel_names[c.rel] +
           (real_mode ? std::to_string(static_cast<double>(c.w) / static_cast<double>(wscale)) : std::to_string(c.w));
}
bool disjunctive(Con const &c) { return c.rel == NE; }
void edges_of(Con const &c, std::vector<DEdge> &out) {
    switch (c.rel) {
        case LE: out.push_back({c.u, c.v, c.w}); break;
        case LT: out.push_back({c.u, c.v, c.w - 1}); break;
        case GE: out.push_back({c.v, c.u, -c.w}); break;
        case GT: out.push_back({c.v, c.u, -c.w - 1}); break;
        case EQ:
            out.push_back({c.u, c.v, c.w});
            out.push_back({c.v, c.u, -c.w});
            break;
        default: internal_error("edges_of");
    }
}
bool consistent(std::vector<DEdge> const &es) {
    std::map<int, int64_t> d;
    for (auto const &e : es) {
        d[e.from] = 0;
        d[e.to] = 0;
    }
    for (size_t i = 0; i <= d.size(); ++i) {
        bool ch = false;
        for (auto const &e : es) {
            auto x = d[e.from] + e.w;
            if (x < d[e.to]) {
                d[e.to] = x;
                ch = true;
            }
        }
        if (!ch) {
            return true;
        }
    }
    return false;
}
static bool cons_rec(std::vector<Con> const &dis, size_t i, std::vector<DEdge> &es) {
    if (!consistent(es)) {
        return false;
    }
    if (i == dis.size()) {
        return true;
    }
    auto n = es.size();
    for (int r : {LT, GT}) {
        auto c = dis[i];
        c.rel = r;
        edges_of(c, es);
        if (cons_rec(dis, i + 1, es)) {
            es.resize(n);
            return true;
        }
        es.resize(n);
    }
    return false;
}
bool consistent(std::vector<Con> const &cs) {
    std::vector<DEdge> es;
    std::vector<Con> dis;
    for (auto const &c : cs) {
        if (disjunctive(c)) {
            dis.push_back(c);
        } else {
            edges_of(c, es);
        }
    }
    return cons_rec(dis, 0, es);
}
bool holds(Con const &c, std::map<int, int64_t> const &val) {
    int64_t x[2];
    int vs[2] = {c.u, c.v};
    for (int i = 0; i < 2; ++i) {
        if (vs[i] == 0) {
            x[i] = 0;
        } else {
            auto it = val.find(vs[i]);
            if (it == val.end()) {
                if (c.u == c.v) {
                    x[i] = 0;
                    continue;
                }
                return false;
            }
            x[i] = it->second;
        }
    }
    auto d = x[0] - x[1];
    switch (c.rel) {
        case LE: return d <= c.w;
        case LT: return d < c.w;
        case GE: return d >= c.w;
        case GT: return d > c.w;
        case EQ: return d == c.w;
        default: return d != c.w;
    }
}
Dist::Dist(std::vector<DEdge> const &es) {
    std::set<int> vs;
    for (auto const &e : es) {
        vs.insert(e.from);
        vs.insert(e.to);
        auto [it, ins] = d.emplace(std::make_pair(e.from, e.to), e.w);
        if (!ins && e.w < it->second) {
            it->second = e.w;
        }
    }
    for (int v : vs) {
        auto [it, ins] = d.emplace(std::make_pair(v, v), 0);
        if (!ins && it->second > 0) {
            it->second = 0;
        }
    }
    for (int k : vs) {
        for (int i : vs) {
            auto const *ik = get(i, k);
            if (ik == nullptr) {
                continue;
            }
            for (int j : vs) {
                auto const *kj = get(k, j);
                if (kj == nullptr) {
                    continue;
                }
                auto x = *ik + *kj;
                auto [it, ins] = d.emplace(std::make_pair(i, j), x);
                if (!ins && x < it->second) {
                    it->second = x;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- theory atoms
namespace {
typedef SimTheory const &TA;
// evaluates a ground term to a symbol text; numbers are returned through num
std::string term_sym(TA ta, clingo_id_t id, bool &is_num, int64_t &num);
std::vector<clingo_id_t> const &targs(TA ta, clingo_id_t id) { return ta.terms.at(id).args; }
int ttype(TA ta, clingo_id_t id) { return ta.terms.at(id).type; }
std::string tname(TA ta, clingo_id_t id) {
    auto const &t = ta.terms.at(id);
    return t.type == clingo_theory_term_type_function ? ta.terms.at(static_cast<clingo_id_t>(t.number)).name : t.name;
}
struct Lin {
    std::map<int, int64_t> co; // variable -> coefficient
    int64_t k{0};              // constant (scaled)
};
bool is_op(std::string const &n) { return n == "+" || n == "-" || n == "*" || n == "/"; }
std::string term_sym(TA ta, clingo_id_t id, bool &is_num, int64_t &num) {
    is_num = false;
    auto ty = ttype(ta, id);
    if (ty == clingo_theory_term_type_number) {
        int x = ta.terms.at(id).number;
        is_num = true;
        num = x;
        return std::to_string(x);
    }
    if (ty == clingo_theory_term_type_symbol) {
        return tname(ta, id);
    }
    auto as = targs(ta, id);
    if (ty == clingo_theory_term_type_function && is_op(tname(ta, id))) {
        auto n = tname(ta, id);
        bool n0 = false, n1 = false;
        int64_t x0 = 0, x1 = 0;
        auto a = term_sym(ta, as[0], n0, x0);
        if (as.size() == 1) {
            if (n0) {
                is_num = true;
                num = n == "-" ? -x0 : x0;
                return std::to_string(num);
            }
            return a.rfind("-", 0) == 0 ? a.substr(1) : "-" + a;
        }
        term_sym(ta, as[1], n1, x1);
        is_num = true;
        num = n == "+" ? x0 + x1 : n == "-" ? x0 - x1 : n == "*" ? x0 * x1 : x1 != 0 ? x0 / x1 : 0;
        return std::to_string(num);
    }
    std::string r = ty == clingo_theory_term_type_function ? tname(ta, id) : "";
    if (as.empty() && !r.empty()) {
        return r;
    }
    r += "(";
    for (size_t i = 0; i < as.size(); ++i) {
        bool n = false;
        int64_t x = 0;
        r += (i > 0 ? "," : "") + term_sym(ta, as[i], n, x);
    }
    if (ty == clingo_theory_term_type_tuple && as.size() == 1) {
        r += ",";
    }
    return r + ")";
}
bool lin(TA ta, clingo_id_t id, Lin &out) {
    auto ty = ttype(ta, id);
    if (ty == clingo_theory_term_type_number) {
        int x = ta.terms.at(id).number;
        out.k = x * wscale;
        return true;
    }
    if (ty == clingo_theory_term_type_symbol) {
        auto n = tname(ta, id);
        if (n.size() > 2 && n[0] == '"') {
            char *e = nullptr;
            auto s = n.substr(1, n.size() - 2);
            double x = strtod(s.c_str(), &e);
            if (*e == '\0') {
                out.k = llround(x * static_cast<double>(wscale));
                return true;
            }
        }
        out.co[vid(n)] = 1;
        return true;
    }
    if (ty == clingo_theory_term_type_function && is_op(tname(ta, id))) {
        auto as = targs(ta, id);
        auto n = tname(ta, id);
        Lin a, b;
        if (!lin(ta, as[0], a)) {
            return false;
        }
        if (as.size() == 1) {
            for (auto &[v, c] : a.co) {
                out.co[v] = n == "-" ? -c : c;
            }
            out.k = n == "-" ? -a.k : a.k;
            return true;
        }
        if (!lin(ta, as[1], b)) {
            return false;
        }
        if (n == "+" || n == "-") {
            int64_t f = n == "-" ? -1 : 1;
            out = a;
            for (auto &[v, c] : b.co) {
                out.co[v] += f * c;
            }
            out.k += f * b.k;
            return true;
        }
        if (n == "*") {
            if (!a.co.empty() && !b.co.empty()) {
                return false;
            }
            if (!a.co.empty()) {
                std::swap(a, b);
            }
            for (auto &[v, c] : b.co) {
                out.co[v] = a.k / wscale * c;
            }
            out.k = a.k * b.k / wscale;
            return true;
        }
        return false;
    }
    bool num = false;
    int64_t x = 0;
    auto s = term_sym(ta, id, num, x);
    out.co[vid(s)] = 1;
    return true;
}
} // namespace
bool read_theory_atoms(SimControl &c, std::vector<LCon> &out) {
    TA ta = c.theory;
    for (auto const &atom : ta.atoms) {
        auto name = ttype(ta, atom.term) == clingo_theory_term_type_symbol ? tname(ta, atom.term) : "";
        if (name != "__diff_h" && name != "__diff_b") {
            continue;
        }
        if (!atom.guard || atom.elems.size() != 1) {
            return false;
        }
        auto const &rel = ta.terms.at(atom.op).name;
        auto const &tu = ta.elems.at(atom.elems[0]).tuple;
        Lin l, r;
        if (tu.size() != 1 || !lin(ta, tu[0], l) || !lin(ta, atom.rhs, r)) {
            return false;
        }
        Con con;
        con.w = r.k - l.k;
        for (auto &[v, co] : r.co) {
            l.co[v] -= co;
        }
        int nu = 0, nv = 0;
        for (auto &[v, co] : l.co) {
            if (co == 0 || v == 0) {
                continue;
            }
            if (co == 1) {
                con.u = v;
                ++nu;
            } else if (co == -1) {
                con.v = v;
                ++nv;
            } else {
                return false;
            }
        }
        if (nu > 1 || nv > 1) {
            return false;
        }
        con.rel = -1;
        for (int k = 0; k < 6; ++k) {
            if (rel == rel_names[k]) {
                con.rel = k;
            }
        }
        if (con.rel < 0) {
            return false;
        }
        int lit = atom.lit;
        out.push_back({lit == 0 ? -1 : c.plit(lit), con, name == "__diff_b"});
    }
    return true;
}

// ---------------------------------------------------------------- programs
std::string Spec::all_text() const {
    std::string r;
    for (size_t i = 0; i < text.size(); ++i) {
        r += (steps > 1 ? "%% step " + std::to_string(i) + "\n" : "") + text[i];
    }
    return r;
}
static uint32_t G(uint32_t n) { return draw(S_GEN, n); }
Con gen_con(std::vector<std::string> const &vars, GenParams const &p) {
    Con c;
    auto n = static_cast<uint32_t>(vars.size());
    auto shape = G(12);
    if (shape < 8 && n > 1) {
        auto a = G(n);
        auto b = G(n - 1);
        b = b >= a ? b + 1 : b;
        c.u = vid(vars[a]);
        c.v = vid(vars[b]);
    } else if (shape < 11 || !p.trivial) {
        (G(2) == 0 ? c.u : c.v) = vid(vars[G(n)]);
    } else if (G(2) == 0) {
        c.u = c.v = vid(vars[G(n)]);
    }
    auto r = G(16);
    c.rel = r < 8 ? LE : r < 10 ? GE : r < 11 ? LT : r < 12 ? GT : r < 14 ? (p.eq ? EQ : LE) : (p.ne ? NE : GE);
    static int64_t const small[] = {0, -1, 1, -2, 2, -3, 3, -4, 4, 5, -5, 7, -7};
    if (p.big && G(24) == 23) {
        c.w = static_cast<int64_t>(G(2000001)) - 1000000;
    } else {
        c.w = small[G(13)];
    }
    if (real_mode) {
        c.w = c.w * wscale;
        if (decimals) {
            c.w += static_cast<int64_t>(G(10)) * (wscale / 10);
        } else if (G(2) == 1) {
            c.w += wscale / 2;
        }
    }
    return c;
}
static std::string num_str(int64_t w) {
    if (real_mode) {
        if (w % wscale == 0 && G(2) == 0) {
            return std::to_string(w / wscale);
        }
        char b[64];
        snprintf(b, sizeof b, "\"%.1f\"", static_cast<double>(w) / static_cast<double>(wscale));
        return b;
    }
    return std::to_string(w);
}
static std::string plus(int64_t w) { // "+ 3" or "- 3"
    return w < 0 ? "- " + num_str(-w) : "+ " + num_str(w);
}
std::string render_con(Con const &c0, GenParams const &p) {
    Con c = c0;
    static int const rev[6] = {GE, GT, LE, LT, EQ, NE};
    auto style = p.fancy ? G(12) : 0;
    auto U = [&](int v) { return v == 0 ? std::string("0") : vname(v); };
    if (style == 6 || style == 7) { // reversed
        std::swap(c.u, c.v);
        c.w = -c.w;
        c.rel = rev[c.rel];
    }
    auto rel = std::string(" ") + rel_names[c.rel] + " ";
    int64_t k = (static_cast<int64_t>(G(2)) + 1) * wscale;
    switch (style) {
        case 1: {
            if (c.v == 0 && c.u != 0) {
                return "&diff{" + U(c.u) + "}" + rel + num_str(c.w);
            }
            if (c.u == 0 && c.v != 0) {
                return "&diff{-" + U(c.v) + "}" + rel + num_str(c.w);
            }
            break;
        }
        case 2: {
            return "&diff{" + U(c.u) + "}" + rel + U(c.v) + " " + plus(c.w);
        }
        case 3: {
            return "&diff{" + U(c.u) + " " + plus(k) + " - " + U(c.v) + "}" + rel + num_str(c.w + k);
        }
        case 4: {
            if (c.u != 0) {
                return "&diff{2*" + U(c.u) + " - " + U(c.v) + " - " + U(c.u) + "}" + rel + num_str(c.w);
            }
            break;
        }
        case 5: {
            if (!real_mode) {
                return "&diff{" + U(c.u) + " - " + U(c.v) + "}" + rel + "(2*(" + std::to_string(c.w / 2) + ") " +
                       plus(c.w - 2 * (c.w / 2)) + ")";
            }
            break;
        }
        case 8: {
            return "&diff{-(" + U(c.v) + " - " + U(c.u) + ")}" + rel + num_str(c.w);
        }
        case 9: {
            return "&diff{" + num_str(k) + "}" + rel + U(c.v) + " - " + U(c.u) + " " + plus(c.w + k);
        }
        default: break;
    }
    return "&diff{" + U(c.u) + "-" + U(c.v) + "}" + rel + num_str(c.w);
}
Spec gen_spec(GenParams const &p) {
    Spec s;
    s.steps = p.steps;
    s.text.resize(static_cast<size_t>(p.steps));
    auto range = [](int lo, int hi) { return lo + static_cast<int>(G(static_cast<uint32_t>(std::max(0, hi - lo) + 1))); };
    int nv = range(p.min_vars, p.max_vars);
    static char const *const fancy_names[] = {"f(1)", "f(x,2)", "(a,1)", "\"s t\"", "g(h(1))", "start(job,1)", "-y", "f((1,2))"};
    for (int i = 0; i < nv; ++i) {
        std::string n = "v" + std::to_string(i);
        if (p.fancy && G(8) == 7) {
            auto k = G(8);
            std::string f = fancy_names[k];
            if (std::find(s.vars.begin(), s.vars.end(), f) == s.vars.end() && f != "-y") {
                n = f;
            }
        }
        s.vars.push_back(n);
    }
    // several components
    std::vector<std::vector<std::string>> groups{s.vars};
    if (p.disjoint && nv >= 4 && G(3) == 2) {
        groups = {{}, {}};
        for (int i = 0; i < nv; ++i) {
            groups[static_cast<size_t>(i % 2)].push_back(s.vars[static_cast<size_t>(i)]);
        }
    }
    auto con = [&]() { return gen_con(groups[G(static_cast<uint32_t>(groups.size()))], p); };
    // atoms
    auto stp = [&]() { return static_cast<int>(G(static_cast<uint32_t>(p.steps))); };
    int nc = range(p.min_choice, p.max_choice);
    for (int i = 0; i < nc; ++i) {
        s.atoms.push_back({"a" + std::to_string(i), 0, i == 0 ? 0 : stp()});
    }
    int ne = p.max_ext > 0 ? range(0, p.max_ext) : 0;
    for (int i = 0; i < ne; ++i) {
        s.atoms.push_back({"e" + std::to_string(i), 2, stp()});
    }
    auto body = [&](int step, size_t max, size_t limit, bool need) {
        std::vector<BLit> b;
        std::vector<int> cand;
        for (size_t i = 0; i < limit; ++i) {
            if (s.atoms[i].step <= step) {
                cand.push_back(static_cast<int>(i));
            }
        }
        auto n = static_cast<size_t>(G(static_cast<uint32_t>(max) + 1));
        if (need && n == 0) {
            n = 1;
        }
        for (size_t i = 0; i < n && !cand.empty(); ++i) {
            auto k = G(static_cast<uint32_t>(cand.size()));
            b.push_back({cand[k], G(3) != 2});
            cand.erase(cand.begin() + k);
        }
        return b;
    };
    // body constraints
    int nb = range(0, p.max_body);
    std::set<std::string> texts;
    for (int i = 0; i < nb; ++i) {
        auto c = con();
        auto t = render_con(c, p);
        if (!texts.insert(t).second) {
            continue;
        }
        int st = stp();
        int obs = -1;
        if (p.obs && !p.shifted) {
            obs = static_cast<int>(s.atoms.size());
            s.atoms.push_back({"obs(" + std::to_string(i) + ")", 3, st});
        }
        s.bodies.push_back({c, t, obs, st});
    }
    // derived atoms
    int nd = range(0, p.max_derived);
    for (int i = 0; i < nd; ++i) {
        int st = stp();
        auto limit = s.atoms.size();
        auto h = static_cast<int>(limit);
        s.atoms.push_back({"d" + std::to_string(i), 1, st});
        int nr = 1 + static_cast<int>(G(2));
        for (int j = 0; j < nr; ++j) {
            DRule r{h, body(st, 2, limit, true), {}, st};
            if (p.theory_in_ic && !p.shifted && !s.bodies.empty() && G(4) == 3) {
                auto k = G(static_cast<uint32_t>(s.bodies.size()));
                if (s.bodies[k].step <= st) {
                    r.tbody.emplace_back(static_cast<int>(k), G(2) == 0);
                    r.nn = G(5) == 4;
                }
            }
            if (r.body.empty() && r.tbody.empty()) {
                r.body.push_back({0, true});
                if (s.atoms[0].step > st) {
                    continue;
                }
            }
            s.rules.push_back(r);
        }
    }
    // integrity constraints
    int ni = range(0, p.max_integrity);
    for (int i = 0; i < ni; ++i) {
        int st = stp();
        DRule r{-1, body(st, 3, s.atoms.size(), false), {}, st};
        if (p.theory_in_ic && !s.bodies.empty() && (p.shifted || G(2) == 1)) {
            auto k = G(static_cast<uint32_t>(s.bodies.size()));
            if (s.bodies[k].step <= st) {
                r.tbody.emplace_back(static_cast<int>(k), G(2) == 0);
            }
        }
        if (!r.tbody.empty()) {
            r.nn = G(5) == 4;
            r.falsity = static_cast<int>(G(8));
            r.first = G(2) == 1;
            r.extra = static_cast<int>(G(10));
        }
        if (r.body.size() + r.tbody.size() >= 1) {
            s.rules.push_back(r);
        }
    }
    // head constraints
    int nh = range(p.min_head, p.max_head);
    for (int i = 0; i < nh; ++i) {
        int st = stp();
        auto c = con();
        // chains make cycles likely
        if (p.chains && !s.heads.empty() && G(3) == 2) {
            auto const &o = s.heads[G(static_cast<uint32_t>(s.heads.size()))].c;
            if (o.rel == LE || o.rel == LT) {
                c.u = o.v;
                if (c.u == c.v) {
                    c.v = o.u;
                }
            } else {
                c.u = o.v;
                c.v = o.u;
            }
        }
        s.heads.push_back({c, render_con(c, p), body(st, 2, s.atoms.size(), G(8) != 7), st});
    }
    // text
    auto lits = [&](std::vector<BLit> const &b, std::vector<std::pair<int, bool>> const &tb, bool nn = false) {
        std::string r;
        for (auto const &l : b) {
            r += (r.empty() ? "" : ", ") + std::string(l.pos ? "" : "not ") + s.atoms[static_cast<size_t>(l.atom)].name;
        }
        for (auto const &[k, pos] : tb) {
            r += (r.empty() ? "" : ", ") + std::string(pos ? nn ? "not not " : "" : "not ") + s.bodies[static_cast<size_t>(k)].text;
        }
        return r;
    };
    for (auto const &a : s.atoms) {
        auto &t = s.text[static_cast<size_t>(a.step)];
        if (a.kind == 0) {
            t += "{" + a.name + "}.\n";
        } else if (a.kind == 2) {
            t += "#external " + a.name + ".\n";
        }
    }
    for (auto const &b : s.bodies) {
        if (b.obs >= 0) {
            s.text[static_cast<size_t>(b.step)] += s.atoms[static_cast<size_t>(b.obs)].name + " :- " + b.text + ".\n";
        }
    }
    for (auto const &r : s.rules) {
        static char const *const falsities[8] = {"", "", "", "", "#false", "not #true", "not not #false", "#false"};
        static char const *const extras[10] = {"", "", "", "", "", "1 < 2", "#true", "not not 1 < 2", "0 < #count { 1 }", "1 <= { 1 = 1 }"};
        auto text = lits(r.body, r.tbody, r.nn);
        if (r.first && !r.body.empty()) {
            text = lits({}, r.tbody, r.nn) + ", " + lits(r.body, {});
        }
        if (r.extra >= 5) {
            text = std::string(extras[r.extra]) + ", " + text;
        }
        s.text[static_cast<size_t>(r.step)] +=
            (r.head >= 0 ? s.atoms[static_cast<size_t>(r.head)].name : std::string(falsities[r.falsity])) + " :- " +
            text + ".\n";
    }
    for (auto const &h : s.heads) {
        auto b = lits(h.body, {});
        s.text[static_cast<size_t>(h.step)] += h.text + (b.empty() ? "" : " :- " + b) + ".\n";
    }
    return s;
}

std::set<std::string> brute_force(Spec const &s, int step, std::map<int, int> const &fixed) {
    std::set<std::string> res;
    std::vector<int> free;
    std::vector<int8_t> val(s.atoms.size(), 0); // false
    for (size_t i = 0; i < s.atoms.size(); ++i) {
        auto const &a = s.atoms[i];
        if (a.step > step) {
            continue;
        }
        if (a.kind == 0) {
            free.push_back(static_cast<int>(i));
        } else if (a.kind == 2) {
            auto it = fixed.find(static_cast<int>(i));
            if (it != fixed.end() && it->second == 0) {
                free.push_back(static_cast<int>(i));
            } else {
                val[i] = it != fixed.end() && it->second > 0 ? 1 : 0;
            }
        }
    }
    std::vector<int> bs;
    for (size_t i = 0; i < s.bodies.size(); ++i) {
        if (s.bodies[i].step <= step) {
            bs.push_back(static_cast<int>(i));
        }
    }
    CHECK_INTERNAL(free.size() + bs.size() <= 16);
    std::map<std::pair<uint64_t, uint64_t>, bool> memo;
    std::vector<int8_t> tv(s.bodies.size(), 0);
    for (uint32_t m = 0; m < (1u << free.size()); ++m) {
        for (size_t i = 0; i < free.size(); ++i) {
            val[static_cast<size_t>(free[i])] = (m >> i) & 1;
        }
        for (uint32_t b = 0; b < (1u << bs.size()); ++b) {
            count(oracle_combinations);
            for (size_t i = 0; i < bs.size(); ++i) {
                tv[static_cast<size_t>(bs[i])] = (b >> i) & 1;
            }
            auto body_true = [&](std::vector<BLit> const &bl, std::vector<std::pair<int, bool>> const &tb) {
                for (auto const &l : bl) {
                    if ((val[static_cast<size_t>(l.atom)] != 0) != l.pos) {
                        return false;
                    }
                }
                for (auto const &[k, pos] : tb) {
                    if ((tv[static_cast<size_t>(k)] != 0) != pos) {
                        return false;
                    }
                }
                return true;
            };
            // atoms are only defined over earlier atoms
            for (size_t i = 0; i < s.atoms.size(); ++i) {
                if (s.atoms[i].kind == 1 || s.atoms[i].kind == 3) {
                    val[i] = 0;
                }
            }
            for (size_t i = 0; i < s.bodies.size(); ++i) {
                if (s.bodies[i].step <= step && s.bodies[i].obs >= 0) {
                    val[static_cast<size_t>(s.bodies[i].obs)] = tv[i];
                }
            }
            bool ok = true;
            for (auto const &r : s.rules) { // derived atoms come before integrity constraints
                if (r.step > step || !body_true(r.body, r.tbody)) {
                    continue;
                }
                if (r.head < 0) {
                    ok = false;
                    break;
                }
                val[static_cast<size_t>(r.head)] = 1;
            }
            if (!ok) {
                continue;
            }
            bool match = true;
            for (auto const &[a, f] : fixed) {
                if (f != 0 && s.atoms[static_cast<size_t>(a)].step <= step &&
                    (val[static_cast<size_t>(a)] != 0) != (f > 0)) {
                    match = false;
                }
            }
            if (!match) {
                continue;
            }
            uint64_t hm = 0;
            for (size_t i = 0; i < s.heads.size(); ++i) {
                if (s.heads[i].step <= step && body_true(s.heads[i].body, {})) {
                    hm |= uint64_t{1} << i;
                }
            }
            auto [it, ins] = memo.emplace(std::make_pair(hm, b), false);
            if (ins) {
                std::vector<Con> cs;
                for (size_t i = 0; i < s.heads.size(); ++i) {
                    if ((hm >> i) & 1) {
                        cs.push_back(s.heads[i].c);
                    }
                }
                for (int i : bs) {
                    auto const &c = s.bodies[static_cast<size_t>(i)].c;
                    cs.push_back(tv[static_cast<size_t>(i)] != 0 ? c : negate(c));
                }
                it->second = consistent(cs);
            }
            if (it->second) {
                std::string key;
                for (size_t i = 0; i < s.atoms.size(); ++i) {
                    if (val[i] != 0 && s.atoms[i].step <= step) {
                        key += s.atoms[i].name + " ";
                    }
                }
                res.insert(key);
            }
        }
    }
    return res;
}
std::vector<Con> fired_heads(Spec const &s, int step, std::set<std::string> const &atoms) {
    std::vector<Con> r;
    for (auto const &h : s.heads) {
        if (h.step > step) {
            continue;
        }
        bool f = true;
        for (auto const &l : h.body) {
            f = f && (atoms.count(s.atoms[static_cast<size_t>(l.atom)].name) != 0) == l.pos;
        }
        if (f) {
            r.push_back(h.c);
        }
    }
    return r;
}
std::string model_key(Spec const &s, int step, SimControl &c, SThread &t) {
    if (s.atoms.empty()) {
        return "";
    }
    std::unordered_set<std::string_view> tr;
    for (auto const &y : c.syms) {
        if (y.plit == 0 || t.value(c.plit(y.plit)) == 1) {
            tr.insert(y.name);
        }
    }
    std::string key;
    for (auto const &a : s.atoms) {
        if (a.step <= step && tr.count(a.name) != 0) {
            key += a.name + " ";
        }
    }
    return key;
}
