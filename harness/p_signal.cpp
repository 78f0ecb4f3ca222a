// C07: the operations on signals against pointwise definitions
#include "sut.h"
using namespace STLRom;
using ref::PL;

static PL toRef(const Signal &s) {  // right-continuous function on [beginTime,endTime]
    PL f = PL::point(s.front().time, s.front().value);
    for (size_t i = 0; i < s.size(); i++) {
        double n = i + 1 < s.size() ? s[i + 1].time : s.endTime;
        if (n <= s[i].time) continue;
        double e = s[i].valueAt(n);
        f.p.back() = s[i].value;
        f.addSeg(n, s[i].value, e, i + 1 < s.size() ? s[i + 1].value : e);
    }
    if (s.size() > 1 && s.back().time == s.endTime) f.p.back() = s.back().value;
    return f;
}
static std::string showSig(const Signal &s) {
    std::ostringstream o;
    o.precision(12);
    o << "[" << s.beginTime << "," << s.endTime << "]";
    for (auto &x : s) o << " (" << x.time << ": " << x.value << " slope " << x.derivative << ")";
    return o.str();
}
struct Src {
    Signal sut;
    PL f;
    bool exact = true;
    std::string how;
};
static void wellFormed(const Signal &s, const std::string &what, Case &c) {
    c.checks++;
    if (s.empty()) fail(what + ": empty result");
    if (s.front().time != s.beginTime) fail(what + ": first sample at " + num(s.front().time) + ", signal begins at " + num(s.beginTime) + "\n" + showSig(s));
    if (s.back().time > s.endTime + 1e-9) fail(what + ": last sample after the end\n" + showSig(s));
    for (size_t i = 0; i < s.size(); i++) {
        if (!std::isfinite(s[i].time) || !std::isfinite(s[i].value) || !std::isfinite(s[i].derivative)) fail(what + ": not finite\n" + showSig(s));
        if (i && s[i].time < s[i - 1].time) fail(what + ": samples out of order\n" + showSig(s));
    }
}
static double sigAtT(const Signal &s, double t) {
    size_t i = s.size() - 1;
    while (i > 0 && s[i].time > t) i--;
    return s[i].valueAt(t);
}
// compare on [s,e]
// grid > 0: the operands have exact times on that grid, where the value is unique; -1: it is at the end
static void same(const Signal &g, const PL &f, double s, double e, bool exactAll, const std::string &what, Case &c, double grid = 0) {
    std::vector<double> ts = {s, e};
    for (double x : f.t) ts.push_back(x);
    for (auto &x : g) ts.push_back(x.time);
    std::sort(ts.begin(), ts.end());
    std::vector<double> q;
    for (size_t i = 0; i < ts.size(); i++) {
        q.push_back(ts[i]);
        if (i + 1 < ts.size()) {
            q.push_back(ts[i] + (ts[i + 1] - ts[i]) / 2);
            q.push_back(ts[i] + (ts[i + 1] - ts[i]) * 0.9);
        }
    }
    const double eps = 1e-6;
    for (double t : q) {
        if (t < s || t > e) continue;
        c.checks++;
        double v = sigAtT(g, t), lo, hi;
        bool exact = exactAll || (grid > 0 && t / grid == std::floor(t / grid)) || (grid < 0 && t == f.T1() && t == g.endTime);
        if (exact) {
            lo = hi = (t >= f.T1()) ? f.p.back() : f.right(t);
        } else {
            double a = std::max(f.T0(), t - eps), b = std::min(f.T1(), t + eps);
            hi = ref::supOn(f, a, b);
            lo = -ref::supOn(ref::neg(f), a, b);
        }
        double tol = exact ? std::min(exactAll ? 1e-7 : 3e-6, 10 * tolBase()) : 3e-6;
        if ((v < lo && !near(v, lo, tol)) || (v > hi && !near(v, hi, tol)) || std::isnan(v))
            fail(what + ": value " + num(v) + " at " + num(t) + ", expected " + num(lo) + (hi > lo ? " .. " + num(hi) : "") + "\nresult " + showSig(g));
    }
}
static Src makeSig(Gen &g, bool linear, int tmode, bool boolish, bool tiny, double fine, double off) {
    Src s;
    int n = g.chance(1, 40) ? 20 + (int)g.below(100) : 1 + (int)g.below(7);
    long k = g.chance(1, 3) ? (long)g.below(4) : 0;
    int vm = tiny ? 6 : tmode < 2 && fine == 0 && off == 0 && g.chance(1, 12) ? 5 : (int)g.below(3);
    if (vm == 5) tolBase() = 1e-6;
    if (n > 20) tolBase() = std::max(tolBase(), 2e-8);
    std::ostringstream o;
    o.precision(12);
    for (int i = 0; i < n; i++) {
        double v = boolish ? g.sint(1) : genVal(g, vm).v, t = off + timeOf(tmode, k);
        double d = i == n - 1 && linear && !tiny && g.chance(1, 4) ? g.sint(2) : 0;
        if (fine > 0) t += fine * (g.pick({1, 4, 1}) - 1);
        s.sut.appendSample(t, v, d);
        o << " (" << t << ": " << v << (d ? " slope " + num(d) : "") << ")";
        k += 1 + (long)g.below(4);
    }
    if (g.chance(1, 2)) s.sut.endTime = off + timeOf(tmode, k) + fine * (g.pick({1, 4, 1}) - 1);
    o << " until " << s.sut.endTime;
    s.how = o.str();
    s.f = toRef(s.sut);
    return s;
}
static bool jumps(const PL &f) {
    for (size_t i = 0; i < f.nseg(); i++)
        if (!near(f.r[i], f.p[i + 1], 1e-9) || (i + 1 < f.nseg() && !near(f.p[i + 1], f.l[i + 1], 1e-9))) return true;
    return false;
}
static bool disjoint(const PL &a, const PL &b) { return std::min(a.T1(), b.T1()) < std::max(a.T0(), b.T0()); }

static PL suffixSup(const PL &f) {  // sup over [t, end]
    double T = f.T1();
    PL x = PL::point(f.T0(), 1e9);
    if (T > f.T0()) x.addSeg(T, 1e9, 1e9, 1e9);
    return ref::until0(x, f);
}

static void c07(Gen &g, Case &c) {
    resetGlobals();
    bool linear = g.chance(2, 3);
    if (!linear) Signal::set_interpol("PREVIOUS");
    int tmode = (int)g.below(3);
    bool exact = tmode < 2;
    std::vector<Src> st;
    int ns = 1 + (int)g.below(3);
    bool boolish = g.chance(1, 5);
    bool tiny = exact && !boolish && g.chance(1, 16);
    double fine = exact && !tiny && g.chance(1, 6) ? std::ldexp(1., -4 * (1 + (int)g.below(4))) : 0;
    if (tiny) valueScale() = std::ldexp(1., -30), c.label("values-around-1e-9");
    if (fine > 0) c.label("fine-times");
    static const double offs[] = {-40, 1000, 86400, 1048576, -86400};
    double off = exact && fine == 0 && g.chance(1, 6) ? offs[g.below(5)] : 0;
    if (off != 0) c.label("far-times");
    if (exact && off == 0 && fine == 0) tolBase() = 2e-9;
    c.text = linear ? "LINEAR" : "PREVIOUS";
    for (int i = 0; i < ns; i++) {
        st.push_back(makeSig(g, linear, tmode, boolish, tiny, fine, off));
        st.back().exact = exact;
        c.text += "\ns" + std::to_string(i) + " =" + st.back().how;
    }
    double u = unitOf(tmode), gu = fine > 0 ? fine : u;
    int ops = 1 + (int)g.below(4), applied = 0;
    for (int k = 0; k < ops; k++) {
        size_t xi = g.below((uint32_t)st.size()), yi = g.below((uint32_t)st.size());
        Src X = st[xi], Y = st[yi];
        int op = g.pick({2, 5, 5, 3, 3, 3, 4, 4, 4, 2, 2, 2, 2, 2, 2, 2, 2, 2});
        static const char *names[] = {"not",  "and",        "or",        "implies",   "eventually", "globally", "timed_eventually", "timed_globally", "timed_until",
                                      "until", "boolean",    "left_time", "right_time", "shift",      "simplify", "resize", "bounded_eventually", "bounded_globally"};
        std::string nm = std::string("compute_") + names[op];
        bool bin = op == 1 || op == 2 || op == 3 || op == 8 || op == 9;
        double a = g.chance(1, 2) ? 0 : timeOf(tmode, (long)g.below(5)), b = a + timeOf(tmode, (long)g.below(8));
        if (fine > 0) {
            if (g.chance(1, 4)) a += fine, b += fine;
            if (g.chance(1, 2)) b = std::max(a, b + fine * g.sint(1));
        }
        if (op >= 10 && op <= 12) valueScale() = 1;
        std::string what = "s" + std::to_string(st.size()) + " = " + nm + "(s" + std::to_string(xi) + (bin ? ", s" + std::to_string(yi) : "");
        if (op == 6 || op == 7 || op == 8) what += ", " + num(a) + ", " + num(b);
        if (op == 16 || op == 17) {
            if (b <= a) b = a + gu;
            what += ", " + num(b - a);
        }
        what += ")";
        if (bin && disjoint(X.f, Y.f)) {
            c.label("disjoint");
            continue;
        }
        // both ends of a window on a jump: a rounding error of the times decides what the window contains
        if ((op == 6 || op == 7 || op == 8 || op >= 16) && (tmode == 2 || !X.exact || (bin && !Y.exact)) && (X.f.nseg() == 0 || (bin && Y.f.nseg() == 0) || jumps(X.f) || (bin && jumps(Y.f)))) {
            c.label("rounding");
            continue;
        }
        bool dirty = g.chance(1, 4);  // the result object already holds something
        double grid = tmode < 2 && X.exact && (!bin || Y.exact) ? (op >= 10 && op <= 12 ? -1 : gu) : 0;
        Signal R;
        if (dirty) R = st[g.below((uint32_t)st.size())].sut;
        if (dirty && g.chance(1, 2)) {  // something unrelated: longer, elsewhere in time
            R = Signal();
            double t = g.sint(3) * 300;
            for (int n = 1 + (int)g.below(40); n > 0; n--) R.appendSample(t, g.sint(9), g.sint(2)), t += 1 + (double)g.below(30);
            if (g.chance(1, 2)) R.endTime = t;
            c.label("reused-object");
        }
        const Signal &xs = X.sut;
        Src Z;
        Z.exact = X.exact && (!bin || Y.exact);
        double s, e;
        auto run = [&] {
            c.text += "\n" + what;
            c.commit();
        };
        switch (op) {
            case 0:
                run();
                R.compute_not(xs);
                Z.f = ref::neg(X.f);
                break;
            case 1:
            case 2:
            case 3: {
                PL fx = op == 3 ? ref::neg(X.f) : X.f;
                Z.f = ref::combine(fx, Y.f, op != 1);
                Z.exact = false;  // crossings are rounded
                run();
                const Signal &ys = Y.sut;
                if (op == 1) R.compute_and(xs, ys);
                if (op == 2) R.compute_or(xs, ys);
                if (op == 3) R.compute_implies(xs, ys);
                break;
            }
            case 4:
            case 5:
                run();
                if (op == 4) {
                    R.compute_eventually(X.sut);
                    Z.f = suffixSup(X.f);
                } else {
                    R.compute_globally(X.sut);
                    Z.f = ref::neg(suffixSup(ref::neg(X.f)));
                }
                Z.exact = false;
                break;
            case 16:
            case 17:
                a = 0, b = b - a;
                // fall through
            case 6:
            case 7: {
                run();
                if (op == 6) R.compute_timed_eventually(X.sut, a, b);
                if (op == 7) R.compute_timed_globally(X.sut, a, b);
                if (op == 16) R.compute_bounded_eventually(X.sut, b);
                if (op == 17) R.compute_bounded_globally(X.sut, b);
                // windows are cut at the end of the signal: extend it with -inf (+inf)
                bool ev = op == 6 || op == 16;
                PL f = ev ? X.f : ref::neg(X.f);
                PL x = f;
                if (b > a) x.addSeg(f.T1() + (b - a), -1e9, -1e9, -1e9);
                Z.f = ref::winsup(x, a, b);
                if (!ev) Z.f = ref::neg(Z.f);
                Z.exact = false;
                break;
            }
            case 8: {
                double end = std::min(X.f.T1(), Y.f.T1());
                s = std::max(X.f.T0(), Y.f.T0() - a);
                e = end - b;
                bool cut = e < s + 1e-9 || g.chance(1, 2);  // windows that exceed the signals are cut at their end
                if (cut) e = end - a;
                if (e < s + 1e-9) {
                    c.label("short");
                    continue;
                }
                run();
                R.compute_timed_until(X.sut, Y.sut, a, b);
                PL x = ref::restrict_(X.f, s, end), y = ref::restrict_(Y.f, s + a, end);
                if (cut && b > a) {
                    x.addSeg(end + (b - a), -1e9, -1e9, -1e9);
                    y.addSeg(end + (b - a), -1e9, -1e9, -1e9);
                }
                Z.f = ref::untilAB(x, y, a, b, s, e);
                Z.exact = false;
                c.checks++;
                wellFormed(R, what, c);
                if (R.beginTime > s + 1e-9 || R.endTime < e - 1e-9) fail(what + ": domain [" + num(R.beginTime) + "," + num(R.endTime) + "] misses [" + num(s) + "," + num(e) + "]");
                same(R, Z.f, s, e, false, what, c, grid);
                c.label(cut ? "timed_until, windows cut" : names[op]);
                applied++;
                continue;  // outside of [s,e] the result is not specified
            }
            case 9:
                run();
                R.compute_until(X.sut, Y.sut);
                Z.f = ref::until0(X.f, Y.f);
                Z.exact = false;
                break;
            case 10: {
                run();
                R.compute_boolean(xs);
                bool amb = false;
                auto ph = phases(X.f, &amb, linear);
                if (amb || !X.exact) {
                    c.label("ambiguous");
                    continue;
                }
                Z.f = PL::point(X.f.T0(), ph[0].second);
                for (size_t i = 1; i < ph.size(); i++) Z.f.addSeg(ph[i].first, ph[i - 1].second, ph[i - 1].second, ph[i].second);
                if (X.f.T1() > Z.f.T1()) Z.f.addSeg(X.f.T1(), ph.back().second, ph.back().second, ph.back().second);
                Z.exact = false;
                break;
            }
            case 11:
            case 12: {
                run();
                if (op == 11)
                    R.compute_left_time_rob(xs);
                else
                    R.compute_right_time_rob(xs);
                bool amb = false;
                PL f = timeRob(X.f, op - 10, &amb, linear);
                if (amb || !X.exact) {
                    c.label("ambiguous");
                    continue;
                }
                Z.f = f;
                Z.exact = false;
                break;
            }
            case 13: {
                double d = g.sint(6) * u;
                what = "s" + std::to_string(st.size()) + " = s" + std::to_string(xi) + " shifted by " + num(d);
                run();
                R = X.sut;
                R.shift(d);
                Z.f = ref::shift(X.f, d);
                break;
            }
            case 14:
                what = "s" + std::to_string(st.size()) + " = s" + std::to_string(xi) + " simplified";
                run();
                R = X.sut;
                R.simplify();
                if (R.size() > X.sut.size() + 1) fail(what + ": grew from " + std::to_string(X.sut.size()) + " to " + std::to_string(R.size()) + " samples");
                Z.f = X.f;
                break;
            case 15: {
                s = X.f.T0() + g.sint(3) * u + fine * g.sint(1);
                e = X.f.T1() + g.sint(3) * u + fine * g.sint(1);
                if (e < s || s > X.f.T1() || e < X.f.T0()) continue;
                double v = g.sint(5);
                if (tiny) v = std::ldexp(v, -30);
                what = "s" + std::to_string(st.size()) + " = s" + std::to_string(xi) + " resized to [" + num(s) + "," + num(e) + "] with " + num(v);
                run();
                R = X.sut;
                R.resize(s, e, v);
                PL f = ref::restrict_(X.f, s, e);
                if (s < X.f.T0()) {
                    PL q = PL::point(s, f.p[0]);
                    if (f.T0() > s) q.addSeg(f.T0(), f.p[0], f.p[0], f.p[0]);
                    for (size_t i = 0; i < f.nseg(); i++) q.addSeg(f.t[i + 1], f.l[i], f.r[i], f.p[i + 1]);
                    f = q;
                }
                if (e > X.f.T1()) {
                    f.p.back() = v;
                    f.addSeg(e, v, v, v);
                }
                Z.f = f;
                break;
            }
        }
        wellFormed(R, what, c);
        if (!near(R.beginTime, Z.f.T0(), 1e-9) || !near(R.endTime, Z.f.T1(), 1e-9))
            fail(what + ": domain [" + num(R.beginTime) + "," + num(R.endTime) + "], expected [" + num(Z.f.T0()) + "," + num(Z.f.T1()) + "]");
        same(R, Z.f, Z.f.T0(), Z.f.T1(), Z.exact && X.exact && tmode < 2, what, c, grid);
        c.label(names[op]);
        applied++;
        for (size_t i = 1; i < R.size(); i++)
            if (R[i].time == R[i - 1].time) {  // later operations get one value per instant
                R.simplify();
                break;
            }
        Z.sut = R;
        Z.f = toRef(R);  // compare each step on its own
        if (Z.exact) Z.exact = X.exact;
        st.push_back(Z);
    }
    c.nontrivial = applied >= 2;
}
static Reg r07({"C07", c07, 400000, 3200000, "random signals and up to four operations on them; non-trivial: at least two operations were applied", false});
