// Reference model: general piecewise-linear functions on a closed interval, kept as
// knots t_0<=...<=t_n, the value AT each knot, and the two one-sided limits of every open segment.
// Nothing here is shared with the code under test.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {

struct PL {
    std::vector<double> t;  // knots, strictly increasing, size n+1 (n>=0)
    std::vector<double> p;  // value at the knots, size n+1
    std::vector<double> l;  // limit from the right at t[i]  (start of open segment i), size n
    std::vector<double> r;  // limit from the left at t[i+1] (end of open segment i), size n

    double T0() const { return t.front(); }
    double T1() const { return t.back(); }
    size_t nseg() const { return l.size(); }

    double segAt(size_t i, double x) const {
        double w = (x - t[i]) / (t[i + 1] - t[i]);
        return l[i] + (r[i] - l[i]) * w;
    }
    // value at x (x in [T0,T1])
    double at(double x) const {
        size_t k = std::lower_bound(t.begin(), t.end(), x) - t.begin();
        if (k < t.size() && t[k] == x) return p[k];
        if (k == 0) return p.front();
        if (k >= t.size()) return p.back();
        return segAt(k - 1, x);
    }
    // one-sided limit immediately after / before x
    double right(double x) const {
        size_t k = std::upper_bound(t.begin(), t.end(), x) - t.begin();
        if (k == 0) return p.front();
        if (k >= t.size()) return p.back();
        return segAt(k - 1, x);
    }
    double left(double x) const {
        size_t k = std::lower_bound(t.begin(), t.end(), x) - t.begin();
        if (k == 0) return p.front();
        if (k >= t.size()) return p.back();
        return segAt(k - 1, x);
    }
    static PL point(double x, double v) {
        PL f;
        f.t = {x};
        f.p = {v};
        return f;
    }
    void addSeg(double x, double lv, double rv, double pv) {  // open segment to x, then the point x
        t.push_back(x);
        l.push_back(lv);
        r.push_back(rv);
        p.push_back(pv);
    }
};

inline PL mapv(const PL &f, double mul) {
    PL g = f;
    for (auto &v : g.p) v *= mul;
    for (auto &v : g.l) v *= mul;
    for (auto &v : g.r) v *= mul;
    return g;
}
inline PL neg(const PL &f) { return mapv(f, -1.0); }
inline PL shift(const PL &f, double d) {
    PL g = f;
    for (auto &x : g.t) x += d;
    return g;
}

// restriction to [s,e] within the domain (clamped to the domain)
inline PL restrict_(const PL &f, double s, double e) {
    s = std::max(s, f.T0());
    e = std::min(e, f.T1());
    if (e < s) e = s;
    PL g = PL::point(s, f.at(s));
    if (e == s) return g;
    for (size_t i = 0; i < f.nseg(); i++) {
        double a = std::max(s, f.t[i]), b = std::min(e, f.t[i + 1]);
        if (b <= a) continue;
        double lv = a == f.t[i] ? f.l[i] : f.segAt(i, a);
        double rv = b == f.t[i + 1] ? f.r[i] : f.segAt(i, b);
        g.addSeg(b, lv, rv, b == f.t[i + 1] ? f.p[i + 1] : f.segAt(i, b));
    }
    return g;
}

inline PL simplify(const PL &f) {
    PL g = PL::point(f.t[0], f.p[0]);
    for (size_t i = 0; i < f.nseg(); i++) {
        size_t n = g.nseg();
        if (n && g.r[n - 1] == g.p[n] && g.p[n] == f.l[i]) {
            // mergeable if the slopes agree exactly (constants) -- conservative
            if (g.l[n - 1] == g.r[n - 1] && f.l[i] == f.r[i]) {
                g.t[n] = f.t[i + 1];
                g.p[n] = f.p[i + 1];
                continue;
            }
        }
        g.addSeg(f.t[i + 1], f.l[i], f.r[i], f.p[i + 1]);
    }
    return g;
}

// pointwise max (or min) on the common domain
inline PL combine(const PL &f, const PL &g, bool mx) {
    auto op = [mx](double a, double b) { return mx ? std::max(a, b) : std::min(a, b); };
    double s = std::max(f.T0(), g.T0()), e = std::min(f.T1(), g.T1());
    if (e < s) e = s;
    PL a = restrict_(f, s, e), b = restrict_(g, s, e);
    PL h = PL::point(s, op(a.p[0], b.p[0]));
    size_t i = 0, j = 0;
    double cur = s;
    while (i < a.nseg() && j < b.nseg()) {
        double nx = std::min(a.t[i + 1], b.t[j + 1]);
        bool ea = a.t[i + 1] == nx, eb = b.t[j + 1] == nx;
        double al = cur == a.t[i] ? a.l[i] : a.segAt(i, cur), ar = ea ? a.r[i] : a.segAt(i, nx);
        double bl = cur == b.t[j] ? b.l[j] : b.segAt(j, cur), br = eb ? b.r[j] : b.segAt(j, nx);
        double pv = op(ea ? a.p[i + 1] : ar, eb ? b.p[j + 1] : br);
        double d0 = al - bl, d1 = ar - br;
        if ((d0 < 0 && d1 > 0) || (d0 > 0 && d1 < 0)) {
            double w = d0 / (d0 - d1), x = cur + (nx - cur) * w;
            double v = al + (ar - al) * w;
            if (x > cur && x < nx) {
                h.addSeg(x, op(al, bl), v, v);
                h.addSeg(nx, v, op(ar, br), pv);
            } else
                h.addSeg(nx, op(al, bl), op(ar, br), pv);
        } else
            h.addSeg(nx, op(al, bl), op(ar, br), pv);
        cur = nx;
        if (ea) i++;
        if (eb) j++;
    }
    return simplify(h);
}

// sup of f over the closed window [a,b]
inline double supOn(const PL &f, double a, double b) {
    double m = std::max(f.at(a), f.at(b));
    for (size_t i = 0; i < f.t.size(); i++)
        if (f.t[i] >= a && f.t[i] <= b) m = std::max(m, f.p[i]);
    for (size_t i = 0; i < f.nseg(); i++) {
        double x = std::max(a, f.t[i]), y = std::min(b, f.t[i + 1]);
        if (x < y) {
            m = std::max(m, x == f.t[i] ? f.l[i] : f.segAt(i, x));
            m = std::max(m, y == f.t[i + 1] ? f.r[i] : f.segAt(i, y));
        }
    }
    return m;
}

// g(t) = sup f over [t+a,t+b], for t in [T0-a, T1-b]
inline PL winsup(const PL &f, double a, double b) {
    double s = f.T0() - a, e = f.T1() - b;
    if (e < s) e = s;
    std::vector<double> c = {s, e};
    for (double x : f.t) {
        if (x - a > s && x - a < e) c.push_back(x - a);
        if (x - b > s && x - b < e) c.push_back(x - b);
    }
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    auto W = [&](double t) { return supOn(f, std::max(f.T0(), t + a), std::min(f.T1(), t + b)); };
    PL g = PL::point(s, W(s));
    for (size_t k = 0; k + 1 < c.size(); k++) {
        double u = c[k], v = c[k + 1], m = u + (v - u) / 2;
        if (!(u < m && m < v)) {
            g.addSeg(v, g.p.back(), W(v), W(v));
            continue;
        }
        // for t in (u,v): the window starts in the open segment i and ends in the open segment j
        size_t i = std::upper_bound(f.t.begin(), f.t.end(), m + a) - f.t.begin();
        size_t j = std::upper_bound(f.t.begin(), f.t.end(), m + b) - f.t.begin();
        i = std::min(std::max<size_t>(i, 1), f.nseg()) - 1;
        j = std::min(std::max<size_t>(j, 1), f.nseg()) - 1;
        struct Lin {
            double x, y;
        };
        auto lin = [&](size_t q, double off) { return Lin{f.segAt(q, u + off), f.segAt(q, v + off)}; };
        std::vector<Lin> ls = {lin(i, a), lin(j, b)};
        if (i < j) {
            double M = std::max(f.r[i], f.l[j]);
            for (size_t q = i + 1; q <= j; q++) M = std::max(M, f.p[q]);
            for (size_t q = i + 1; q < j; q++) M = std::max(M, std::max(f.l[q], f.r[q]));
            ls.push_back(Lin{M, M});
        }
        // upper envelope of the (at most three) lines on [u,v]
        std::vector<double> ws = {0, 1};
        for (size_t x = 0; x < ls.size(); x++)
            for (size_t y = x + 1; y < ls.size(); y++) {
                double d0 = ls[x].x - ls[y].x, d1 = ls[x].y - ls[y].y;
                if ((d0 < 0 && d1 > 0) || (d0 > 0 && d1 < 0)) ws.push_back(d0 / (d0 - d1));
            }
        std::sort(ws.begin(), ws.end());
        auto env = [&](double w) {
            double best = -INFINITY;
            for (auto &L : ls) best = std::max(best, L.x + (L.y - L.x) * w);
            return best;
        };
        double pw = 0;
        for (size_t q = 1; q < ws.size(); q++) {
            double w = ws[q], x = w == 1 ? v : u + (v - u) * w;
            if (w <= pw || (w < 1 && (x <= g.T1() || x >= v))) continue;
            g.addSeg(x, env(pw), env(w), w == 1 ? W(v) : env(w));
            pw = w;
        }
    }
    return simplify(g);
}
inline PL wininf(const PL &f, double a, double b) { return neg(winsup(neg(f), a, b)); }

// unbounded until on the domain: V(t) = sup_{t'>=t, t'<=T1} min( y(t'), inf_{[t,t']} x )
inline PL until0(const PL &x0, const PL &y0) {
    double s = std::max(x0.T0(), y0.T0()), e = std::min(x0.T1(), y0.T1());
    if (e < s) e = s;
    PL x = restrict_(x0, s, e), y = restrict_(y0, s, e);
    std::vector<double> c = x.t;
    c.insert(c.end(), y.t.begin(), y.t.end());
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    size_t n = c.size();
    // built right to left, pieces stored reversed
    double V = std::min(x.at(c[n - 1]), y.at(c[n - 1]));
    struct Piece {
        PL f;
        double pv;
    };
    std::vector<Piece> rev;  // open segments right to left with the value at their right knot
    double firstV = V;
    for (size_t k = n - 1; k-- > 0;) {
        double u = c[k], v = c[k + 1];
        double xl = x.right(u), xr = x.left(v), yl = y.right(u), yr = y.left(v);
        auto L = [&](double p, double q) {
            PL f = PL::point(u, p);
            f.addSeg(v, p, q, q);
            return f;
        };
        PL fx = L(xl, xr), fy = L(yl, yr), seg;
        if (xl >= xr) {
            PL m = combine(fx, fy, false);
            // suffix sup of m on the segment
            PL sfx = PL::point(v, m.p.back());
            std::vector<std::array<double, 4>> parts;  // (t0,t1,l,r) right to left
            double best = m.r.empty() ? m.p.back() : m.r.back();
            for (size_t q = m.nseg(); q-- > 0;) {
                double a = m.t[q], b = m.t[q + 1], lv = m.l[q], rv = m.r[q];
                best = std::max(best, rv);
                if (lv <= best)
                    parts.push_back({a, b, best, best});
                else {
                    // decreasing towards the right: part above best
                    double w = (lv - best) / (lv - rv);
                    double xx = a + (b - a) * w;
                    if (rv >= best || xx >= b)
                        parts.push_back({a, b, lv, rv});
                    else if (xx <= a)
                        parts.push_back({a, b, lv, best});
                    else {
                        parts.push_back({xx, b, best, best});
                        parts.push_back({a, xx, lv, best});
                    }
                    best = lv;
                }
            }
            PL g;
            bool first = true;
            for (size_t q = parts.size(); q-- > 0;) {
                auto &P = parts[q];
                if (first) {
                    g = PL::point(P[0], P[2]);
                    first = false;
                }
                g.addSeg(P[1], P[2], P[3], P[3]);
            }
            seg = combine(g, L(std::min(xr, V), std::min(xr, V)), true);
        } else {
            PL a = combine(fx, yl >= yr ? fy : L(yr, yr), false);
            PL b = combine(fx, L(V, V), false);
            seg = combine(a, b, true);
        }
        rev.push_back({seg, V});
        double vr = seg.l.front();  // limit from the right at u
        V = std::min(x.at(u), std::max(y.at(u), vr));
        firstV = V;
    }
    PL h = PL::point(s, firstV);
    for (size_t q = rev.size(); q-- > 0;) {
        PL &f = rev[q].f;
        for (size_t i = 0; i < f.nseg(); i++)
            h.addSeg(f.t[i + 1], f.l[i], f.r[i], i + 1 == f.nseg() ? rev[q].pv : f.p[i + 1]);
    }
    return simplify(h);
}

// direct pointwise definition (used to cross-check untilAB): exact maximisation segment by segment
inline double untilPoint(const PL &x, const PL &y, double t, double a, double b) {
    double q1 = std::min(t + b, std::min(x.T1(), y.T1()));
    double q0 = t + a;
    PL xr = restrict_(x, t, q1);
    std::vector<double> c = {t, q1, q0};
    for (double k : xr.t) c.push_back(k);
    for (double k : y.t)
        if (k > t && k < q1) c.push_back(k);
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    double run = xr.p[0], best = -INFINITY;
    if (q0 <= t) best = std::max(best, std::min(y.at(t), run));
    for (size_t k = 0; k + 1 < c.size(); k++) {
        double u = c[k], v = c[k + 1];
        if (v > q1) break;
        // running inf on (u,v): min(run, xl, x(t')) -- inf over [.,t'] of a linear piece
        double xl = x.right(u), xe = x.left(v), yl = y.right(u), ye = y.left(v);
        if (u >= q0) {
            // candidates: both ends and the crossings of the three lines
            auto val = [&](double w) {
                double xv = xl + (xe - xl) * w, yv = yl + (ye - yl) * w;
                return std::min(yv, std::min(run, std::min(xl, xv)));
            };
            std::vector<double> ws = {0, 1};
            auto cross = [&](double p0, double p1, double r0, double r1) {
                double d0 = p0 - r0, d1 = p1 - r1;
                if ((d0 < 0) != (d1 < 0) && d0 != d1) ws.push_back(d0 / (d0 - d1));
            };
            cross(yl, ye, xl, xe);
            cross(yl, ye, run, run);
            cross(yl, ye, xl, xl);
            cross(xl, xe, run, run);
            for (double w : ws)
                if (w >= 0 && w <= 1) best = std::max(best, val(w));
        }
        run = std::min(run, std::min(xl, xe));
        run = std::min(run, x.at(v));
        if (v >= q0 && v <= q1) best = std::max(best, std::min(y.at(v), run));
    }
    return best;
}

// bounded until by the (elementary) rewriting  alw_[0,a] x  and  ev_[a,b] y  and  ev_[a,a] (x U y)
// x defined on [s,e+b], y on [s+a,e+b] (at least)
inline PL untilAB(const PL &x, const PL &y, double a, double b, double s, double e) {
    PL y1 = y;
    PL A = wininf(x, 0, a);
    PL B = winsup(y1, a, b);
    PL U = until0(x, y1);
    PL C = shift(U, -a);
    PL h = combine(combine(A, B, false), C, false);
    return restrict_(h, s, e);
}
}  // namespace ref
