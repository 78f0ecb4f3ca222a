#include "sut.h"
using namespace STLRom;

// C01: complete data, space robustness, linear interpolation
static void c01(Gen &g, Case &c) {
    resetGlobals();
    ScenCfg sc;
    sc.huge = sc.fine = true;
    sc.tiny = 30;
    Scen s = genScen(g, sc);
    c.text = s.show();
    c.commit();
    RefCfg r = refCfg(s);
    LH e = refEval(s.f, s.t0, s.t0, r);
    double want = e.lo.p[0];
    if (e.hi.p[0] != want) fail("internal: reference bounds differ on complete data");
    labelScen(c, s);
    c.nontrivial = tdepth(s.f) > 0 || nnodes(s.f) > 2;
    STLDriver d;
    load(d, s);
    auto got = d.get_online_rob("phi", s.t0);
    c.checks += 3;
    if (got.size() != 3) fail("get_online_rob returned " + std::to_string(got.size()) + " values");
    const char *nm[] = {"robustness", "lower bound", "upper bound"};
    for (int i = 0; i < 3; i++)
        if (!near(got[i], want)) fail(std::string(nm[i]) + " " + num(got[i]) + ", expected " + num(want) + " (triple " + num(got[0]) + " " + num(got[1]) + " " + num(got[2]) + ")");
    STLMonitor m = d.get_monitor("phi");
    double a = m.eval_rob(s.t0);
    if (!near(a, want) || !near(m.get_lower_rob(), want) || !near(m.get_upper_rob(), want))
        fail("monitor: " + num(a) + " [" + num(m.lower_rob) + "," + num(m.upper_rob) + "], expected " + num(want));
}
static Reg r01({"C01", c01, 180000, 1440000, "random formula and trace", false});

// self-check of the reference: rewriting of until against its pointwise definition, windows against scans
static void c00(Gen &g, Case &c) {
    auto rnd = [&](bool jumps) {
        int n = (int)g.below(6);
        ref::PL f = ref::PL::point(0, g.sint(4));
        double t = 0;
        for (int i = 0; i < n; i++) {
            t += 1 + g.below(3);
            double l = f.p.back(), rr = g.sint(4), p = rr;
            if (jumps && g.chance(1, 3)) l = g.sint(4);
            if (jumps && g.chance(1, 3)) rr = g.sint(4);
            if (jumps && g.chance(1, 3)) p = g.sint(4);
            f.addSeg(t, l, rr, p);
        }
        f.addSeg(t + 6, f.p.back(), f.p.back(), f.p.back());
        return f;
    };
    bool j = g.chance(1, 2);
    ref::PL x = rnd(j), y = rnd(j);
    double T = std::min(x.T1(), y.T1());
    double a = g.below(3), b = a + g.below(4);
    if (b > T) throw Discard("short");
    double e = T - b;
    std::ostringstream o;
    auto pr = [&](const ref::PL &f) {
        for (size_t i = 0; i < f.t.size(); i++) {
            o << " (" << f.t[i] << ":" << f.p[i] << ")";
            if (i < f.nseg()) o << f.l[i] << ".." << f.r[i];
        }
        o << "\n";
    };
    pr(x);
    pr(y);
    o << a << " " << b << "\n";
    c.text = o.str();
    ref::PL h = ref::untilAB(ref::restrict_(x, 0, T), ref::restrict_(y, a, T), a, b, 0, e);
    ref::PL s = ref::winsup(y, a, b), in = ref::wininf(y, a, b);
    for (int k = 0; k <= 8; k++) {
        double t = e * k / 8;
        c.checks++;
        double w = ref::untilPoint(ref::restrict_(x, 0, T), ref::restrict_(y, 0, T), t, a, b);
        if (!near(h.at(t), w)) fail("until at " + num(t) + ": " + num(h.at(t)) + " vs " + num(w));
        if (!near(s.at(t), ref::supOn(y, t + a, t + b))) fail("winsup at " + num(t));
        if (!near(in.at(t), -ref::supOn(ref::neg(y), t + a, t + b))) fail("wininf at " + num(t));
    }
    c.nontrivial = true;
}
static Reg r00({"C00", c00, 20000, 20000, "reference self-check", false});

// shared by C05 and C06: complete data, discontinuous robustness signals
static void discontinuous(Gen &g, Case &c, Mode m, ScenCfg sc) {
    Scen s = genScen(g, sc);
    if (m.sem) valueScale() = 1;
    c.text = s.show() + "mode " + modeName(m) + "\n";
    c.commit();
    bool amb = false;
    RefCfg r = modeCfg(s, m, &amb);
    LH e = refEval(s.f, s.t0, s.t0, r);
    if (amb) {
        c.label("ambiguous");
        throw Discard("sign changes within rounding of zero");
    }
    double lo = e.lo.p[0], hi = e.hi.p[0];
    // exact times: no rounding decides on which side of a bound a jump falls, the value is unique
    bool exact = m.sem == 0 && s.tmode < 2;
    if (exact) {
        RefCfg r0 = r;
        r0.eps = 0;
        LH x = refEval(s.f, s.t0, s.t0, r0);
        lo = hi = x.lo.p[0];
    }
    labelScen(c, s);
    c.label(modeName(m));
    c.label(hi - lo < 1e-4 ? "unique-value" : "value-within-hull");
    c.nontrivial = (tdepth(s.f) > 0 || nnodes(s.f) > 2) && hi - lo < 1e-4;
    STLDriver d;
    load(d, s);
    setMode(d, m);
    auto got = d.get_online_rob("phi", s.t0);
    if (got.size() != 3) fail("get_online_rob returned " + std::to_string(got.size()) + " values");
    const char *nm[] = {"robustness", "lower bound", "upper bound"};
    const double tol = exact ? tolBase() : tolBase() < 1e-7 ? 3e-8 : 3e-6;
    auto out = [&](double v) { return (v < lo && !near(v, lo, tol)) || (v > hi && !near(v, hi, tol)) || std::isnan(v); };
    for (int i = 0; i < 3; i++) {
        c.checks++;
        if (out(got[i])) fail(std::string(nm[i]) + " " + num(got[i]) + ", expected " + num(lo) + (hi > lo ? " .. " + num(hi) : ""));
    }
    STLMonitor mo = d.get_monitor("phi");
    double a = mo.eval_rob(s.t0);
    c.checks++;
    if (out(a) || out(mo.get_lower_rob()) || out(mo.get_upper_rob()))
        fail("monitor: " + num(a) + " [" + num(mo.lower_rob) + "," + num(mo.upper_rob) + "], expected " + num(lo) + " .. " + num(hi));
}
static void c05(Gen &g, Case &c) {
    resetGlobals();
    Mode m;
    m.previous = true;
    ScenCfg sc;
    sc.huge = sc.fine = true;
    sc.tiny = m.sem ? 20 : 30;
    discontinuous(g, c, m, sc);
}
static Reg r05({"C05", c05, 140000, 1120000, "random formula and complete trace under PREVIOUS interpolation; non-trivial: an operator applied and a unique expected value", false});
static void c06(Gen &g, Case &c) {
    resetGlobals();
    Mode m;
    m.sem = 1 + (int)g.below(2);
    m.previous = g.chance(1, 2);
    ScenCfg sc;
    sc.huge = sc.fine = true;
    sc.tiny = m.sem ? 20 : 30;
    discontinuous(g, c, m, sc);
}
static Reg r06({"C06", c06, 140000, 1120000, "random formula and complete trace under LEFT_TIME or RIGHT_TIME; non-trivial: an operator applied and a unique expected value", false});
