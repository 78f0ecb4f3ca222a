// STL formula AST, its random generation and its printing in STLRom's concrete syntax.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "gen.h"

typedef std::vector<std::vector<double>> Rows;

// a number that prints exactly as it is parsed
struct Num {
    double v = 0;
    std::string s = "0";
    Num() {}
    explicit Num(const std::string &str) : v(strtod(str.c_str(), nullptr)), s(str) {}
    static Num dec(long n, int digits) {  // n / 10^digits
        bool ng = n < 0;
        unsigned long a = ng ? -n : n;
        std::string t = std::to_string(a);
        while ((int)t.size() <= digits) t = "0" + t;
        if (digits) t.insert(t.size() - digits, ".");
        if (digits) {
            while (t.back() == '0') t.pop_back();
            if (t.back() == '.') t.pop_back();
        }
        if (ng && a) t = "-" + t;
        return Num(t);
    }
    static Num dbl(double x) {  // dyadic with few bits: exact in fixed notation
        char b[96];
        snprintf(b, sizeof b, "%.40f", x);
        std::string t = b;
        while (t.back() == '0') t.pop_back();
        if (t.back() == '.') t.pop_back();
        if (t == "-0") t = "0";
        return Num(t);
    }
};

struct Expr;
struct Node;
typedef std::shared_ptr<Expr> ExprP;
typedef std::shared_ptr<Node> NodeP;

struct Expr {
    enum K { SIG, CST, PAR, ABS, ADD, SUB, MUL } k = CST;
    int sig = 0;          // SIG: 0-based column
    Num num;              // CST
    std::string par;      // PAR
    ExprP l, r;
};
struct Bnd {
    Num num;
    std::string par;  // parameter name when not empty
};
struct Node {
    enum K { ATOM, NOT, AND, OR, IMP, EV, ALW, UNTIL } k = ATOM;
    bool less = false;
    ExprP el, er;   // ATOM
    NodeP l, r;
    Bnd a, b;       // temporal bounds
    std::string ref;  // print as a reference to this named formula
};

struct Env {
    std::map<std::string, double> par;
    double bound(const Bnd &b) const { return b.par.empty() ? b.num.v : par.at(b.par); }
};

inline double horizon(const NodeP &n, const Env &env) {
    switch (n->k) {
        case Node::ATOM: return 0;
        case Node::NOT: return horizon(n->l, env);
        case Node::AND:
        case Node::OR:
        case Node::IMP: return std::max(horizon(n->l, env), horizon(n->r, env));
        case Node::EV:
        case Node::ALW: return env.bound(n->b) + horizon(n->l, env);
        case Node::UNTIL: return env.bound(n->b) + std::max(horizon(n->l, env), horizon(n->r, env));
    }
    return 0;
}
inline int tdepth(const NodeP &n) {
    int l = n->l ? tdepth(n->l) : 0, r = n->r ? tdepth(n->r) : 0;
    return std::max(l, r) + (n->k >= Node::EV);
}
inline int nnodes(const NodeP &n) { return 1 + (n->l ? nnodes(n->l) : 0) + (n->r ? nnodes(n->r) : 0); }
inline bool hasKind(const NodeP &n, Node::K k) {
    return n->k == k || (n->l && hasKind(n->l, k)) || (n->r && hasKind(n->r, k));
}
inline bool nonlinE(const ExprP &e) {
    if (!e) return false;
    if (e->k == Expr::ABS) return true;
    if (e->k == Expr::MUL && e->l->k != Expr::CST && e->l->k != Expr::PAR && e->r->k != Expr::CST && e->r->k != Expr::PAR) return true;
    return nonlinE(e->l) || nonlinE(e->r);
}
inline bool nonlinear(const NodeP &n) {
    if (n->k == Node::ATOM) return nonlinE(n->el) || nonlinE(n->er);
    return (n->l && nonlinear(n->l)) || (n->r && nonlinear(n->r));
}
inline bool usesPar(const ExprP &e) { return e && (e->k == Expr::PAR || usesPar(e->l) || usesPar(e->r)); }
inline bool usesPar(const NodeP &n) {
    if (!n) return false;
    if (n->k == Node::ATOM) return usesPar(n->el) || usesPar(n->er);
    if (n->k >= Node::EV && (!n->a.par.empty() || !n->b.par.empty())) return true;
    return usesPar(n->l) || usesPar(n->r);
}

inline const char *sigName(int i) {
    static const char *n[] = {"x", "y", "w", "q4", "s5", "Speed", "s7", "x1", "y_1", "u", "v12", "x0"};
    if (i < 12) return n[i];
    static std::vector<std::string> more;
    static bool init = [] {
        for (int k = 0; k < 400; k++) more.push_back("c" + std::to_string(k));
        return true;
    }();
    (void)init;
    return more.at(i).c_str();
}

// ---- printing (every compound sub-formula parenthesised unless minimal) ----
inline std::string printE(const ExprP &e, bool operand = false) {
    switch (e->k) {
        case Expr::SIG: return std::string(sigName(e->sig)) + "[t]";
        case Expr::CST: return e->num.s;
        case Expr::PAR: return e->par;
        case Expr::ABS: {
            std::string s = "abs(" + printE(e->l) + ")";
            return operand ? "(" + s + ")" : s;
        }
        default: {
            const char *op = e->k == Expr::ADD ? " + " : e->k == Expr::SUB ? " - " : " * ";
            std::string s = printE(e->l, true) + op + printE(e->r, true);
            return operand ? "(" + s + ")" : s;
        }
    }
}
inline std::string printB(const Bnd &b) { return b.par.empty() ? b.num.s : b.par; }
inline std::string printI(const NodeP &n) { return "[" + printB(n->a) + "," + printB(n->b) + "]"; }
inline std::string printF(const NodeP &n) {
    if (!n->ref.empty()) return n->ref;
    auto P = [](const NodeP &m) {
        std::string s = printF(m);
        return m->ref.empty() ? "(" + s + ")" : s;
    };
    switch (n->k) {
        case Node::ATOM: return printE(n->el) + (n->less ? " < " : " > ") + printE(n->er);
        case Node::NOT: return "not " + P(n->l);
        case Node::AND: return P(n->l) + " and " + P(n->r);
        case Node::OR: return P(n->l) + " or " + P(n->r);
        case Node::IMP: return P(n->l) + " => " + P(n->r);
        case Node::EV: return "ev_" + printI(n) + " " + P(n->l);
        case Node::ALW: return "alw_" + printI(n) + " " + P(n->l);
        case Node::UNTIL: return P(n->l) + " until_" + printI(n) + " " + P(n->r);
    }
    return "";
}
inline std::string printRows(const Rows &d) {
    std::ostringstream o;
    o.precision(17);
    for (auto &r : d) {
        o << "  [";
        for (size_t i = 0; i < r.size(); i++) o << (i ? ", " : "") << r[i];
        o << "]\n";
    }
    return o.str();
}

// ---- generation ----
struct GenCfg {
    int nsig = 1;
    int depth = 3;         // maximal formula depth
    int tdepth = 2;        // maximal temporal nesting
    bool exprs = true;     // arithmetic
    bool nonlin = true;    // abs and products of signals
    bool params = false;   // may use parameters (adds to env)
    bool until = true;
    int tmode = 0;         // time unit of bounds: 0 integers, 1 quarters, 2 tenths, 3 thousandths
    int vmode = 0;         // value mode: 0 small ints, 1 halves, 2 decimals, 3 large
    int maxb = 4;          // maximal bound (in time units of 1)
    double fine = 0;       // small exact step (power of 2) added to some bounds
    Env *env = nullptr;
};
// integers and quarters, some of them a small step earlier or later
inline Num genFine(Gen &g, int tmode, int maxu, double fine) {
    double v = tmode == 0 ? g.range(0, maxu) : g.range(0, maxu * 4) * 0.25;
    int k = g.pick({3, 1, 1, 1});
    if (k == 1) v += fine;
    if (k == 2 && v > 0) v -= fine;
    if (k == 3) v += fine * (double)g.below(4);
    return Num::dbl(v);
}
inline Num genTime(Gen &g, int tmode, int maxu) {
    switch (tmode) {
        case 0: return Num::dec(g.range(0, maxu), 0);
        case 1: return Num::dbl(g.range(0, maxu * 4) * 0.25);
        case 2: return Num::dec(g.range(0, maxu * 10), 1);
        default: return Num::dec(g.range(0, maxu * 1000), 3);
    }
}
inline Num genVal(Gen &g, int vmode) {
    switch (vmode) {
        case 0: return Num::dec(g.sint(3), 0);
        case 1: return Num::dbl(g.sint(8) * 0.5);
        case 2: return Num::dec(g.sint(5000), 3);
        case 4: {  // tiny
            int v = g.sint(5);
            return Num::dec(v, g.chance(1, 2) ? 11 : 5);
        }
        case 6: return Num::dbl(std::ldexp((double)g.sint(8), -30));  // all values tiny
        case 7: return Num::dbl(std::ldexp((double)g.sint(8), -20));
        case 5: {  // beyond the default BigM
            static const long sc[] = {1, 1000, 20000, 100000};
            return Num::dec(g.sint(60) * sc[g.pick({1, 3, 3, 1})], 0);
        }
        default: return Num::dec(g.sint(90), 0);
    }
}
inline ExprP mkE(Expr::K k, ExprP l = nullptr, ExprP r = nullptr) {
    auto e = std::make_shared<Expr>();
    e->k = k;
    e->l = l;
    e->r = r;
    return e;
}
inline ExprP mkCst(const Num &n) {
    auto e = mkE(Expr::CST);
    e->num = n;
    return e;
}
inline std::string newPar(Gen &g, GenCfg &c, double v) {
    // reuse an existing parameter of the same value sometimes, otherwise make one
    (void)g;
    std::string nm = "p" + std::to_string(c.env->par.size() + 1);
    c.env->par[nm] = v;
    return nm;
}
inline ExprP genConst(Gen &g, GenCfg &c) {
    Num v = genVal(g, c.vmode);
    if (c.params && c.env && c.env->par.size() < 6 && g.chance(1, 3)) {
        auto e = mkE(Expr::PAR);
        e->par = newPar(g, c, v.v);
        return e;
    }
    return mkCst(v);
}
inline ExprP genE(Gen &g, GenCfg &c, int d) {
    int k = (!c.exprs || d <= 0) ? g.pick({5, 2}) : g.pick({5, 2, 2, 2, c.nonlin ? 2 : 0, c.nonlin ? 1 : 0, 1});
    switch (k) {
        case 0: {
            auto e = mkE(Expr::SIG);
            e->sig = (int)g.below(c.nsig);
            return e;
        }
        case 1: return genConst(g, c);
        case 2: {
            auto l = genE(g, c, d - 1);
            return mkE(Expr::ADD, l, genE(g, c, d - 1));
        }
        case 3: {
            auto l = genE(g, c, d - 1);
            return mkE(Expr::SUB, l, genE(g, c, d - 1));
        }
        case 4: return mkE(Expr::ABS, genE(g, c, d - 1));
        case 5: {
            auto l = genE(g, c, d - 1);
            return mkE(Expr::MUL, l, genE(g, c, d - 1));
        }
        default: {  // constant times expression: linear
            auto l = genConst(g, c);
            auto r = genE(g, c, d - 1);
            if (g.chance(1, 2)) std::swap(l, r);
            return mkE(Expr::MUL, l, r);
        }
    }
}
inline NodeP genAtom(Gen &g, GenCfg &c) {
    auto n = std::make_shared<Node>();
    n->k = Node::ATOM;
    n->less = g.chance(1, 3);
    int d = c.exprs ? g.pick({4, 3, 1}) : 0;
    auto s = mkE(Expr::SIG);
    s->sig = (int)g.below(c.nsig);
    n->el = d == 0 ? s : genE(g, c, d);
    n->er = g.chance(1, 4) && c.exprs ? genE(g, c, d) : genConst(g, c);
    if (g.chance(1, 8)) std::swap(n->el, n->er);
    return n;
}
inline NodeP genF(Gen &g, GenCfg &c, int d, int td) {
    if (d <= 0) return genAtom(g, c);
    int k = g.pick({3, 2, 3, 3, 2, td > 0 ? 5 : 0, td > 0 ? 5 : 0, td > 0 && c.until ? 5 : 0});
    if (k == 0) return genAtom(g, c);
    auto n = std::make_shared<Node>();
    n->k = (Node::K)k;
    if (k >= Node::EV) {
        auto time = [&]() { return c.fine > 0 ? genFine(g, c.tmode, c.maxb, c.fine) : genTime(g, c.tmode, c.maxb); };
        n->a.num = g.chance(1, 2) ? time() : Num("0");
        Num w = time();
        // exact sum in the unit of the mode
        switch (c.fine > 0 ? 1 : c.tmode) {
            case 0: n->b.num = Num::dec(lround(n->a.num.v + w.v), 0); break;
            case 1: n->b.num = Num::dbl(n->a.num.v + w.v); break;
            case 2: n->b.num = Num::dec(lround((n->a.num.v + w.v) * 10), 1); break;
            default: n->b.num = Num::dec(lround((n->a.num.v + w.v) * 1000), 3);
        }
        if (c.params && c.env && c.env->par.size() < 6) {
            if (g.chance(1, 5)) n->a.par = newPar(g, c, n->a.num.v);
            if (g.chance(1, 4)) n->b.par = newPar(g, c, n->b.num.v);
        }
    }
    int ctd = td - (k >= Node::EV);
    n->l = genF(g, c, d - 1, ctd);
    if (k == Node::AND || k == Node::OR || k == Node::IMP || k == Node::UNTIL) n->r = genF(g, c, d - 1, ctd);
    return n;
}
// largest absolute value the expression can take for |signal| <= m
inline double magE(const ExprP &e, double m, const Env &env) {
    switch (e->k) {
        case Expr::SIG: return m;
        case Expr::CST: return std::fabs(e->num.v);
        case Expr::PAR: return std::fabs(env.par.at(e->par));
        case Expr::ABS: return magE(e->l, m, env);
        case Expr::MUL: return magE(e->l, m, env) * magE(e->r, m, env);
        default: return magE(e->l, m, env) + magE(e->r, m, env);
    }
}
inline double mag(const NodeP &n, double m, const Env &env) {
    if (n->k == Node::ATOM) return magE(n->el, m, env) + magE(n->er, m, env);
    double v = mag(n->l, m, env);
    return n->r ? std::max(v, mag(n->r, m, env)) : v;
}
