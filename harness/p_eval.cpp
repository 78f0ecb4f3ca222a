// C08 evaluation over an interval, C09 independence of the history, C10 isolation, C11 parameters,
// C14 samples, C18 laws of the logic, C19 bounds
#include "sut.h"
using namespace STLRom;
using ref::PL;

static double sigVal(const Signal &s, double t) {
    size_t i = s.size() - 1;
    while (i > 0 && s[i].time > t) i--;
    return s[i].valueAt(t);
}
static std::string showSignal(const Signal &s) {
    std::ostringstream o;
    o.precision(12);
    o << "[" << s.beginTime << "," << s.endTime << "]";
    for (auto &x : s) o << " (" << x.time << ": " << x.value << " slope " << x.derivative << ")";
    return o.str();
}
// cout of the code under test is not part of any property
struct Quiet {
    std::ostringstream o;
    std::streambuf *a, *b;
    Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
    ~Quiet() {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
    }
};
static void setMonMode(STLMonitor &mo, const Mode &m) {
    static const char *sn[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME"};
    mo.set_semantics(sn[m.sem]);
    Quiet q;
    mo.set_interpol(m.previous ? "PREVIOUS" : "LINEAR");
}

// C08: eval_rob(s, e) and its signal
static void c08(Gen &g, Case &c) {
    resetGlobals();
    ScenCfg sc;
    sc.interval = true;
    Mode m;
    m.sem = g.pick({6, 1, 1});
    m.previous = g.chance(1, 4);
    sc.huge = sc.fine = true;
    sc.tiny = m.sem ? 20 : 30;
    sc.nonlin = g.chance(1, 3);
    sc.params = g.chance(1, 4);
    Scen s = genScen(g, sc);
    if (m.sem) valueScale() = 1;
    c.text = s.show() + "mode " + modeName(m) + "\n";
    c.commit();
    bool amb = false;
    RefCfg r = modeCfg(s, m, &amb);
    LH e = refEval(s.f, s.t0, s.t1, r);
    if (amb) {
        c.label("ambiguous");
        throw Discard("sign changes within rounding of zero");
    }
    STLDriver d;
    load(d, s);
    setMode(d, m);
    STLMonitor mo = d.get_monitor("phi");
    double a;
    if (g.chance(1, 2))
        a = mo.eval_rob(s.t0, s.t1);
    else {
        mo.set_eval_time(s.t0, s.t1);
        a = mo.eval_rob();
    }
    Signal z = mo.get_signal();
    bool jumpy = m.previous || m.sem;
    bool exact = m.sem == 0 && s.tmode < 2;
    if (exact && jumpy) {
        RefCfg r0 = r;
        r0.eps = 0;
        e = refEval(s.f, s.t0, s.t1, r0);
    }
    if (z.empty()) fail("get_signal() is empty");
    c.checks += 4;
    const double ttol = s.tmode < 2 ? 1e-12 : 1e-9;
    if (!near(z.beginTime, s.t0, ttol) || z.endTime < s.t1 - ttol * (1 + std::fabs(s.t1)))
        fail("signal covers [" + num(z.beginTime) + "," + num(z.endTime) + "], evaluated on [" + num(s.t0) + "," + num(s.t1) + "]");
    const bool tight = tolBase() < 1e-7;
    const double tol = jumpy ? (tight ? 3e-8 : 3e-6) : tolBase();
    auto outside = [&](double v, double lo, double hi) { return std::isnan(v) || (v < lo && !near(v, lo, tol)) || (v > hi && !near(v, hi, tol)); };
    double v3[3] = {a, mo.get_lower_rob(), mo.get_upper_rob()};
    for (double v : v3)
        if (outside(v, e.lo.p[0], e.hi.p[0])) fail("values at the start " + num(v3[0]) + " [" + num(v3[1]) + "," + num(v3[2]) + "], expected " + num(e.lo.p[0]) + " .. " + num(e.hi.p[0]));
    // pointwise
    std::vector<double> ts = {s.t0, s.t1}, q;
    for (double t : e.lo.t) ts.push_back(t);
    for (auto &x : z) ts.push_back(x.time);
    for (auto &row : s.data) ts.push_back(row[0]);
    std::sort(ts.begin(), ts.end());
    for (size_t i = 0; i < ts.size(); i++) {
        q.push_back(ts[i]);
        if (i + 1 < ts.size() && ts[i + 1] > ts[i] + 1e-6) q.push_back(ts[i] + (ts[i + 1] - ts[i]) * 0.5);
    }
    const double eps = tight ? 1e-8 : 1e-6;
    // instants that are sums and differences of times of the problem: exact
    std::vector<double> grid;
    double gu = s.fine > 0 ? s.fine : 0.25;
    for (double t : q)
        if (std::fmod(t, gu) == 0) grid.push_back(t);
    for (double t : q) {
        if (t < s.t0 || t > s.t1) continue;
        double lo, hi, v = sigVal(z, t);
        if (exact && !jumpy) {
            lo = hi = e.lo.at(t);
        } else if (exact && std::binary_search(grid.begin(), grid.end(), t)) {
            // at a jump any sample of the signal at that instant counts
            lo = hi = e.lo.at(t);
            bool found = near(v, lo);
            for (auto &x : z) found = found || (x.time == t && near(x.value, lo));
            if (found) continue;
        } else {
            double l = std::max(s.t0, t - eps), h = std::min(s.t1, t + eps);
            lo = -ref::supOn(ref::neg(e.lo), l, h);
            hi = ref::supOn(e.hi, l, h);
        }
        c.checks++;
        double tl = exact && !jumpy ? tolBase() : tight ? 1e-6 : 4.1e-5;
        if (std::isnan(v) || (v < lo && !near(v, lo, tl)) || (v > hi && !near(v, hi, tl)))
            fail("signal value " + num(v) + " at " + num(t) + ", expected " + num(lo) + (hi > lo ? " .. " + num(hi) : "") + "\nsignal " + showSignal(z));
    }
    // the same value as an evaluation at that instant alone
    if (!nonlinear(s.f) && m.sem == 0 && (!m.previous || exact)) {
        for (int k = 0; k < 3; k++) {
            long n = lround((s.t1 - s.t0) / unitOf(s.tmode));
            double t = k == 0 ? s.t1 : timeOf(s.tmode, lround(s.t0 / unitOf(s.tmode)) + (long)g.below((uint32_t)n + 1));
            if (t > s.t1 || t < s.t0) continue;
            double w = mo.eval_rob(t), v = sigVal(z, t);
            c.checks++;
            bool bad = !near(v, w);
            if (bad && m.previous) {
                // at a jump of the signal any of its samples at that instant counts
                for (auto &x : z) bad = bad && !(near(x.time, t, 1e-9) && near(x.value, w));
            }
            if (bad) fail("eval_rob(" + num(t) + ") = " + num(w) + ", but the signal of eval_rob(" + num(s.t0) + ", " + num(s.t1) + ") has " + num(v) + "\nsignal " + showSignal(z));
        }
        c.label("single-instant");
    }
    labelScen(c, s);
    c.label(modeName(m));
    c.nontrivial = (tdepth(s.f) > 0 || nnodes(s.f) > 2) && e.lo.nseg() > 1;
}
static Reg r08({"C08", c08, 110000, 880000, "random formula, trace and evaluation interval; non-trivial: an operator applied and a robustness signal of more than one segment", false});
