// Reference semantics: interval robustness of an STL formula over a finite trace, evaluated node by
// node on exact piecewise-linear functions (unknown values are -M / +M).
#pragma once
#include "ast.h"
#include "pl.h"

struct RefCfg {
    const Rows *data = nullptr;
    const Env *env = nullptr;
    bool previous = false;
    int sem = 0;          // 0 SPACE, 1 LEFT_TIME, 2 RIGHT_TIME
    double M = 10000.;
    double eps = 0;       // time blur for discontinuous signals
    bool *ambiguous = nullptr;
};
struct LH {
    ref::PL lo, hi;
};

inline double sigAt(const Rows &d, int col, double t, bool previous) {
    size_t n = d.size(), k = 0;
    while (k < n && d[k][0] <= t) k++;
    if (k == 0) return d[0][col];
    const auto &p = d[k - 1];
    if (p[0] == t || previous || k == n) return p[col];
    const auto &q = d[k];
    return p[col] + (q[col] - p[col]) / (q[0] - p[0]) * (t - p[0]);
}
inline double exprAt(const ExprP &e, const RefCfg &c, double t) {
    switch (e->k) {
        case Expr::SIG: return sigAt(*c.data, e->sig + 1, t, c.previous);
        case Expr::CST: return e->num.v;
        case Expr::PAR: return c.env->par.at(e->par);
        case Expr::ABS: return std::fabs(exprAt(e->l, c, t));
        case Expr::ADD: return exprAt(e->l, c, t) + exprAt(e->r, c, t);
        case Expr::SUB: return exprAt(e->l, c, t) - exprAt(e->r, c, t);
        case Expr::MUL: return exprAt(e->l, c, t) * exprAt(e->r, c, t);
    }
    return 0;
}
// boolean phases of g: list of (start, value); right-continuous
inline std::vector<std::pair<double, bool>> phases(const ref::PL &g, bool *amb, bool linear) {
    // at zero with a future that is not known the sign at that instant is open
    if (linear && amb && g.p.back() == 0) *amb = true;
    std::vector<std::pair<double, bool>> ph;
    auto add = [&](double t, bool b) {
        if (!ph.empty() && ph.back().second == b) return;
        if (!ph.empty() && ph.back().first == t) {
            ph.back().second = b;
            if (ph.size() > 1 && ph[ph.size() - 2].second == b) ph.pop_back();
            return;
        }
        ph.push_back({t, b});
    };
    auto near0 = [&](double v) {
        if (v != 0 && std::fabs(v) < 1e-9 && amb) *amb = true;
    };
    if (g.nseg() == 0) {
        near0(g.p[0]);
        add(g.t[0], g.p[0] > 0);
        return ph;
    }
    // reaching zero exactly and turning back: a rounding error there decides whether there is a change
    auto touch = [&](size_t i) {
        double v = g.l[i], dt = g.t[i + 1] - g.t[i];
        bool rises = i + 1 < g.nseg() && g.l[i + 1] == 0 && g.r[i + 1] > 0;
        bool jump = g.p[i + 1] != 0;
        if (jump || (v < 0 && rises) || (v > 0 && !rises)) return false;
        int ex;
        return !(std::frexp(dt, &ex) == 0.5 && v * 64 == std::floor(v * 64) && g.t[i] * 64 == std::floor(g.t[i] * 64));
    };
    for (size_t i = 0; i < g.nseg(); i++) {
        double v = g.l[i], w = g.r[i];
        if (amb && w == 0 && v != 0 && touch(i)) *amb = true;
        near0(v);
        near0(w);
        if (v > 0) {
            add(g.t[i], true);
            if (w < 0) add(g.t[i] + (g.t[i + 1] - g.t[i]) * (v / (v - w)), false);
        } else if (v < 0) {
            add(g.t[i], false);
            if (w > 0) add(g.t[i] + (g.t[i + 1] - g.t[i]) * (v / (v - w)), true);
        } else
            add(g.t[i], w > 0);
    }
    if (g.p.back() != g.r.back()) {  // a jump at the very end
        near0(g.p.back());
        add(g.T1(), g.p.back() > 0);
    }
    return ph;
}
inline ref::PL timeRob(const ref::PL &g, int sem, bool *amb, bool linear) {
    auto ph = phases(g, amb, linear);
    double e = g.T1();
    ref::PL r;
    for (size_t i = 0; i < ph.size(); i++) {
        double s = ph[i].first, n = i + 1 < ph.size() ? ph[i + 1].first : e;
        double sg = ph[i].second ? 1 : -1, lv, rv;
        if (sem == 1) {
            lv = sg * 1e-14;
            rv = sg * (n - s + 1e-14);
        } else {
            lv = sg * (n - s);
            rv = 0;
        }
        if (i == 0)
            r = ref::PL::point(s, lv);
        else
            r.p.back() = lv;
        if (n > s) r.addSeg(n, lv, rv, rv);
    }
    return r;
}

inline LH evalAtom(const NodeP &n, double s, double e, const RefCfg &c) {
    const Rows &d = *c.data;
    double D = d.back()[0];
    ref::PL f;
    bool known = D >= s;
    double ke = std::min(D, e);
    if (known) {
        std::vector<double> ts = {s};
        for (auto &r : d)
            if (r[0] > s && r[0] < e) ts.push_back(r[0]);
        if (ke > ts.back()) ts.push_back(ke);
        auto val = [&](double t) {
            double a = exprAt(n->el, c, t), b = exprAt(n->er, c, t);
            return n->less ? b - a : a - b;
        };
        f = ref::PL::point(s, val(s));
        for (size_t i = 1; i < ts.size(); i++) {
            double v = val(ts[i]);
            if (c.previous)
                f.addSeg(ts[i], f.p.back(), f.p.back(), v);
            else
                f.addSeg(ts[i], f.p.back(), v, v);
        }
        if (c.sem) f = timeRob(f, c.sem, c.ambiguous, !c.previous);
    }
    LH out;
    if (known) {
        out.lo = out.hi = f;
        if (c.eps > 0 && f.nseg() > 0) {
            auto ext = [&](const ref::PL &h) {  // constant extension by eps on both sides
                ref::PL q = ref::PL::point(h.T0() - c.eps, h.p[0]);
                q.addSeg(h.T0(), h.p[0], h.p[0], h.p[0]);
                for (size_t i = 0; i < h.nseg(); i++) q.addSeg(h.t[i + 1], h.l[i], h.r[i], h.p[i + 1]);
                q.addSeg(h.T1() + c.eps, h.p.back(), h.p.back(), h.p.back());
                return q;
            };
            ref::PL x = ext(f);
            out.hi = ref::restrict_(ref::winsup(x, -c.eps, c.eps), f.T0(), f.T1());
            out.lo = ref::restrict_(ref::wininf(x, -c.eps, c.eps), f.T0(), f.T1());
            // restrict_ keeps the domain; guard against rounding at its ends
            for (ref::PL *p : {&out.lo, &out.hi}) {
                p->t.front() = f.T0();
                p->t.back() = f.T1();
            }
        }
        if (ke < e) {
            out.lo.addSeg(e, -c.M, -c.M, -c.M);
            out.hi.addSeg(e, c.M, c.M, c.M);
        }
    } else {
        out.lo = ref::PL::point(s, -c.M);
        out.hi = ref::PL::point(s, c.M);
        if (e > s) {
            out.lo.addSeg(e, -c.M, -c.M, -c.M);
            out.hi.addSeg(e, c.M, c.M, c.M);
        }
    }
    return out;
}

inline LH refEval(const NodeP &n, double s, double e, const RefCfg &c) {
    using namespace ref;
    switch (n->k) {
        case Node::ATOM: return evalAtom(n, s, e, c);
        case Node::NOT: {
            LH x = refEval(n->l, s, e, c);
            return {neg(x.hi), neg(x.lo)};
        }
        case Node::AND:
        case Node::OR: {
            LH x = refEval(n->l, s, e, c), y = refEval(n->r, s, e, c);
            bool mx = n->k == Node::OR;
            return {combine(x.lo, y.lo, mx), combine(x.hi, y.hi, mx)};
        }
        case Node::IMP: {
            LH x = refEval(n->l, s, e, c), y = refEval(n->r, s, e, c);
            return {combine(neg(x.hi), y.lo, true), combine(neg(x.lo), y.hi, true)};
        }
        case Node::EV:
        case Node::ALW: {
            double a = c.env->bound(n->a), b = c.env->bound(n->b);
            LH x = refEval(n->l, s + a, e + b, c);
            if (n->k == Node::EV) return {restrict_(winsup(x.lo, a, b), s, e), restrict_(winsup(x.hi, a, b), s, e)};
            return {restrict_(wininf(x.lo, a, b), s, e), restrict_(wininf(x.hi, a, b), s, e)};
        }
        case Node::UNTIL: {
            double a = c.env->bound(n->a), b = c.env->bound(n->b);
            LH x = refEval(n->l, s, e + b, c), y = refEval(n->r, s + a, e + b, c);
            return {untilAB(x.lo, y.lo, a, b, s, e), untilAB(x.hi, y.hi, a, b, s, e)};
        }
    }
    return {};
}
