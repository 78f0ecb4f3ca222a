// C02 soundness, C03 refinement and convergence, C04 tightness of the robustness interval on partial data
#include "sut.h"
using namespace STLRom;

static const double M = 10000;

// the largest signal values for which the predicates stay within the bound
static double extreme(const Scen &s) {
    for (double m : {9990., 4990., 3330., 1000., 300., 90.})
        if (mag(s.f, m, s.env) <= M - 1) return m;
    return 0;
}
// some values of the data become very large (exact times only: the slopes are too large for rounding errors)
static bool extremize(Gen &g, Scen &s) {
    if (s.tmode >= 2 || s.fine > 0 || s.t0 > 50 || s.vmode >= 6 || !g.chance(1, 6)) return false;
    double m = extreme(s);
    if (m < 90) return false;
    for (auto &r : s.data)
        for (size_t j = 1; j < r.size(); j++) {
            int k = g.pick({3, 1, 1, 1});
            if (k == 1) r[j] = m;
            if (k == 2) r[j] = -m;
            if (k == 3) r[j] = g.sint((int)m);
        }
    return true;
}

// a continuation of the first k samples up to the horizon
static Rows continuation(Gen &g, const Scen &s, size_t k) {
    Rows d(s.data.begin(), s.data.begin() + k);
    double u = unitOf(s.tmode);
    long kk = lround(d.back()[0] / u);
    double last = s.t1 + horizon(s.f, s.env);
    int style = (int)g.below(5);
    double ext = s.tmode < 2 && s.fine == 0 && s.vmode < 6 ? extreme(s) : 0;
    if (style == 4 && ext < 90) style = 0;
    int side = (int)g.below(3);
    std::vector<double> v(d.back().begin() + 1, d.back().end());
    for (int i = 0; i < 40; i++) {
        double left = (last - kk * u) / u;
        if (left <= 0) break;
        long st = 1 + (style == 3 ? 0 : (long)g.below((uint32_t)std::max(1.0, std::min(left, 1e5))));
        if (i == 39) st = (long)std::ceil(left) + 1;
        kk += st;
        for (auto &x : v) {
            if (style == 4) {
                x = side == 2 ? (g.chance(1, 2) ? ext : -ext) : side == 1 ? ext : -ext;
                continue;
            }
            int w = style == 0 || s.vmode >= 6 ? 0 : g.pick({2, 1, 1});
            if (w == 0) x = genVal(g, s.vmode).v;
            if (w == 1) x = g.sint(30);
        }
        std::vector<double> r = {timeOf(s.tmode, kk)};
        r.insert(r.end(), v.begin(), v.end());
        d.push_back(r);
    }
    if (d.back()[0] < last + 1e-9) {
        std::vector<double> r = d.back();
        r[0] = timeOf(s.tmode, kk + 1);
        d.push_back(r);
    }
    return d;
}
static void c02(Gen &g, Case &c) {
    resetGlobals();
    ScenCfg sc;
    sc.maxMag = 2000;
    sc.fine = true;
    sc.tiny = 30;
    Scen s = genScen(g, sc);
    Mode m;
    m.sem = g.pick({4, 1});
    m.previous = g.chance(1, 4);
    if (m.sem) valueScale() = 1;
    if (extremize(g, s)) c.label("values-near-BigM");
    size_t n = s.data.size();
    size_t k = 1 + g.below((uint32_t)n);
    c.text = s.show() + "mode " + modeName(m) + ", only the first " + std::to_string(k) + " samples are given\n";
    c.commit();
    STLDriver d;
    load(d, s, false);
    setMode(d, m);
    for (size_t i = 0; i < k; i++) d.add_sample(s.data[i]);
    std::vector<double> got;
    if (g.chance(1, 2))
        got = d.get_online_rob("phi", s.t0);
    else {
        STLMonitor mo = d.get_monitor("phi");
        double r = mo.eval_rob(s.t0);
        got = {r, mo.get_lower_rob(), mo.get_upper_rob()};
    }
    if (got.size() != 3) fail("no interval");
    c.checks++;
    if (!(got[1] <= got[2] || near(got[1], got[2]))) fail("empty interval [" + num(got[1]) + ", " + num(got[2]) + "]");
    for (int e = 0; e < 3; e++) {
        Scen f = s;
        if (e) f.data = continuation(g, s, k);
        double mx = 0;
        for (auto &r : f.data)
            for (size_t i = 1; i < r.size(); i++) mx = std::max(mx, std::fabs(r[i]));
        if (mag(f.f, mx, f.env) > M - 1) continue;
        bool amb = false;
        LH w = refEval(s.f, s.t0, s.t0, modeCfg(f, m, &amb));
        if (amb) {
            c.label("ambiguous");
            continue;
        }
        c.checks += 2;
        if (got[1] > w.hi.p[0] && !near(got[1], w.hi.p[0]))
            fail("lower bound " + num(got[1]) + " exceeds the robustness " + num(w.hi.p[0]) + " of this completion:\n" + printRows(f.data));
        if (got[2] < w.lo.p[0] && !near(got[2], w.lo.p[0]))
            fail("upper bound " + num(got[2]) + " is below the robustness " + num(w.lo.p[0]) + " of this completion:\n" + printRows(f.data));
    }
    labelScen(c, s);
    c.label(modeName(m));
    bool partial = s.data[k - 1][0] < s.t0 + horizon(s.f, s.env);
    if (partial) c.label("partial");
    bool info = got[1] > -M || got[2] < M;
    if (partial && info) c.label("partial-informative");
    if (partial && got[1] > -M && got[2] < M) c.label("partial-two-sided");
    c.nontrivial = partial && info;
}
static Reg r02({"C02", c02, 120000, 960000, "random formula, trace and prefix; non-trivial: the prefix does not cover the horizon and the interval still says something (one side differs from +-BigM)", false});

static void c03(Gen &g, Case &c) {
    resetGlobals();
    ScenCfg sc;
    sc.maxMag = 2000;
    sc.fine = true;
    sc.tiny = 30;
    sc.nmax = 10;
    Scen s = genScen(g, sc);
    Mode m;
    m.sem = g.pick({4, 1});
    m.previous = g.chance(1, 4);
    // with discontinuous signals a rounding error on a time decides on which side of a closed bound a jump
    // falls: compare successive intervals on exact times only
    if (s.tmode >= 2) m = Mode();
    if (m.sem) valueScale() = 1;
    if (extremize(g, s)) c.label("values-near-BigM");
    c.text = s.show() + "mode " + modeName(m) + ", samples given one by one\n";
    c.commit();
    STLDriver d;
    load(d, s, false);
    setMode(d, m);
    double lo = -M, up = M;
    double H = s.t0 + horizon(s.f, s.env);
    bool complete = false, strict = false;
    for (size_t i = 0; i < s.data.size(); i++) {
        d.add_sample(s.data[i]);
        if (m.sem) {
            bool amb = false;
            Scen p = s;
            p.data.resize(i + 1);
            refEval(s.f, s.t0, s.t0, modeCfg(p, m, &amb));
            if (amb) {
                c.label("ambiguous");
                return;
            }
        }
        auto got = d.get_online_rob("phi", s.t0);
        if (got.size() != 3) fail("no interval");
        c.checks += 2;
        auto at = " after sample " + std::to_string(i + 1);
        if (got[1] < lo && !near(got[1], lo)) fail("lower bound went down from " + num(lo) + " to " + num(got[1]) + at);
        if (got[2] > up && !near(got[2], up)) fail("upper bound went up from " + num(up) + " to " + num(got[2]) + at);
        if (i && !complete && (got[1] > lo + 1e-3 || got[2] < up - 1e-3) && s.data[i][0] < H) strict = true;
        if (s.data[i][0] >= H) {
            c.checks++;
            if (!near(got[1], got[2]) || !near(got[0], got[1]))
                fail("data cover the horizon " + num(H) + at + " but the interval is [" + num(got[1]) + ", " + num(got[2]) + "], robustness " + num(got[0]));
            if (complete && !near(got[0], lo)) fail("robustness changed from " + num(lo) + " to " + num(got[0]) + at + ", beyond the horizon");
            complete = true;
        }
        lo = got[1];
        up = got[2];
    }
    labelScen(c, s);
    c.label(modeName(m));
    if (complete) c.label("complete");
    if (strict) c.label("refined-while-partial");
    c.nontrivial = strict;
}
static Reg r03({"C03", c03, 120000, 960000, "random formula and trace, every prefix; non-trivial: the interval shrank strictly before the data covered the horizon", false});

// exact interval for formulas whose operands of temporal operators ... (see DESIGN)
static void c04(Gen &g, Case &c) {
    resetGlobals();
    ScenCfg sc;
    sc.maxMag = 2000;
    sc.fine = true;
    sc.tiny = 30;
    sc.tdepth = 1;
    Scen s = genScen(g, sc);
    Mode m;
    if (extremize(g, s)) c.label("values-near-BigM");
    size_t k = 1 + g.below((uint32_t)s.data.size());
    s.data.resize(k);
    // keep the end of the data away from the inexact bounds of the windows
    if (s.tmode >= 2)
        for (auto &r : s.data) r[0] += 0.00037;
    c.text = s.show();
    c.commit();
    LH w = refEval(s.f, s.t0, s.t0, modeCfg(s, m, nullptr));
    STLDriver d;
    load(d, s);
    auto got = d.get_online_rob("phi", s.t0);
    labelScen(c, s);
    c.checks += 2;
    double H = s.t0 + horizon(s.f, s.env);
    bool partial = s.data.back()[0] < H;
    if (!near(got[1], w.lo.p[0])) fail("lower bound " + num(got[1]) + ", expected " + num(w.lo.p[0]));
    if (!near(got[2], w.hi.p[0])) fail("upper bound " + num(got[2]) + ", expected " + num(w.hi.p[0]));
    c.nontrivial = partial && (w.lo.p[0] > -M || w.hi.p[0] < M);
}
static Reg r04({"C04", c04, 300000, 2400000, "tight interval", false});
