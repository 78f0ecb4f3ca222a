// Access to the code under test.
#pragma once
#include <cmath>
#include <sstream>

#include "ast.h"
#include "refeval.h"
#include "robustness.h"
#include "signal.h"
#include "signal_expr.h"
#include "stl_driver.h"
#include "stl_monitor.h"
#include "tools.h"
#include "transducer.h"

// size of the values of the problem, for the comparison of numbers
inline double &valueScale() {
    static double s = 1;
    return s;
}
// tolerance on values: smaller where all times are exact and near 0
inline double &tolBase() {
    static double s = 1e-6;
    return s;
}
// reset everything static before a case
inline void resetGlobals() {
    valueScale() = 1;
    tolBase() = 1e-6;
    STLRom::Signal::semantics = STLRom::Semantics::SPACE;
    STLRom::Signal::interpol = STLRom::Interpol::LINEAR;
    STLRom::Signal::BigM = 10000.;
}
inline std::string num(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.12g", v);
    return b;
}
inline bool near(double a, double b, double tol = -1) {
    if (a == b) return true;
    if (tol < 0) tol = tolBase();
    return std::fabs(a - b) <= tol * (valueScale() + std::max(std::fabs(a), std::fabs(b)));
}

// ---- a complete monitoring problem ----
struct Scen {
    int nsig = 1;
    Env env;
    NodeP f;
    Rows data;
    double t0 = 0, t1 = 0;  // evaluation window
    int tmode = 0, vmode = 0;
    double fine = 0;
    int big = 0;  // 1 many samples, 2 many signals, 3 deep formula
    std::string spec() const {
        std::string s = "signal ";
        for (int i = 0; i < nsig; i++) s += std::string(i ? ", " : "") + sigName(i);
        s += "\n";
        if (!env.par.empty()) {
            s += "param ";
            bool first = true;
            for (auto &p : env.par) {
                char b[96];
                snprintf(b, sizeof b, "%.40f", p.second);
                std::string v = b;
                while (v.back() == '0') v.pop_back();
                if (v.back() == '.') v.pop_back();
                if (v == "-0") v = "0";
                s += (first ? "" : ", ") + p.first + " = " + v;
                first = false;
            }
            s += "\n";
        }
        return s + "phi := " + printF(f) + "\n";
    }
    std::string show() const {
        std::ostringstream o;
        o.precision(17);
        o << spec() << "t0 = " << t0;
        if (t1 != t0) o << " .. " << t1;
        o << "\nsamples:\n" << printRows(data);
        return o.str();
    }
};
struct DataCfg {
    double first = 0, last = 10;  // time span that must be covered
    int nmax = 12, nmin = 1;
    int tmode = 0, vmode = 0;
    size_t cap = 60;      // largest number of samples
    double fine = 0;      // small exact step: some samples lie that much earlier or later
};
inline double unitOf(int tmode) { return tmode == 0 ? 1 : tmode == 1 ? 0.25 : tmode == 2 ? 0.1 : 0.001; }
inline double timeOf(int tmode, long k) { return tmode == 0 ? (double)k : tmode == 1 ? k * 0.25 : tmode == 2 ? Num::dec(k, 1).v : Num::dec(k, 3).v; }

// samples from (about) c.first to at least c.last
inline Rows genData(Gen &g, int nsig, const DataCfg &c) {
    Rows d;
    double u = unitOf(c.tmode);
    long k0 = (long)std::floor(c.first / u + 1e-9);
    long k1 = (long)std::ceil(c.last / u - 1e-9);
    if (c.tmode >= 2)
        while (timeOf(c.tmode, k1) < c.last + 1e-9) k1++;  // sums of such times are not exact
    if (k1 < k0) k1 = k0;
    int n = c.nmin + (int)g.below(c.nmax - c.nmin + 1);
    if (c.nmin > 1 && g.chance(1, 2)) k1 = std::max(k1, k0 + n);  // also samples after the span
    long span = k1 - k0;
    std::vector<long> ks;
    long k = k0;
    ks.push_back(k);
    long step = std::max<long>(1, (span + n - 1) / std::max(1, n));
    while (k < k1) {
        long s = 1 + (long)g.below((uint32_t)std::min<long>(2 * step, 100000));
        if (c.tmode == 3 && g.chance(1, 6)) s = 1;
        k += s;
        ks.push_back(k);
        if (ks.size() > c.cap) {
            k = std::max(k + 1, k1);
            ks.push_back(k);
        }
    }
    if (g.chance(1, 2)) ks.push_back(k + 1 + (long)g.below(3));
    std::vector<double> prev(nsig, 0);
    for (size_t i = 0; i < ks.size(); i++) {
        std::vector<double> r = {timeOf(c.tmode, ks[i])};
        if (c.fine > 0) {
            int k = g.pick({4, 1, 1});
            if (k == 1) r[0] += c.fine;
            if (k == 2 && i + 1 < ks.size()) r[0] -= c.fine;
        }
        for (int j = 0; j < nsig; j++) {
            double v = (i && g.chance(1, 5)) ? prev[j] : genVal(g, c.vmode).v;
            prev[j] = v;
            r.push_back(v);
        }
        d.push_back(r);
        // a second sample right after the first
        if (c.fine > 0 && g.chance(1, 6)) {
            r[0] += c.fine;
            for (int j = 0; j < nsig; j++)
                if (g.chance(1, 2)) r[1 + j] = prev[j] = genVal(g, c.vmode).v;
            d.push_back(r);
        }
    }
    return d;
}
struct ScenCfg {
    int depth = 4, tdepth = 2;
    bool params = false, exprs = true, nonlin = true, until = true, negTime = true, interval = false;
    int tmodes = 4;       // number of time modes allowed
    int lateStart = 1;    // data may start after t0
    int maxb = 4;
    bool cover = true;    // data cover the horizon
    double maxMag = 4000;
    int nmax = 12;
    int vmodes = 4;
    bool huge = false;    // rarely: values beyond BigM
    int tiny = 0;         // rarely: all values around 2^-tiny (30 or 20)
    bool fine = false;    // rarely: times a small step apart
    bool big = true;      // rarely: hundreds of samples, up to 12 signals, deep formulas
};
inline Scen genScen(Gen &g, const ScenCfg &sc) {
    Scen s;
    if (sc.big && g.chance(1, 24)) s.big = 1 + g.pick({3, 1, 2});
    s.nsig = s.big == 2 ? 4 + (int)g.below(9) : 1 + (int)g.below(3);
    if (s.big == 2 && g.chance(1, 6)) s.nsig = 100 + (int)g.below(240);
    s.tmode = (int)g.below(sc.tmodes);
    s.vmode = (int)g.below(sc.vmodes);
    // exact times: the slopes are too large for rounding errors on times
    bool huge = sc.huge && s.tmode < 2 && g.chance(1, 8);
    if (huge) s.vmode = 5;
    if (sc.fine && !huge && s.tmode < 2 && g.chance(1, 5)) s.fine = std::ldexp(1., -4 * (1 + (int)g.below(5)));
    bool tiny = sc.tiny && !huge && g.chance(1, 12);
    if (tiny) {
        s.vmode = sc.tiny == 30 ? 6 : 7;
        valueScale() = std::ldexp(1., -sc.tiny);
    }
    GenCfg c;
    c.nsig = s.nsig;
    c.exprs = sc.exprs;
    c.nonlin = sc.nonlin && !tiny;
    c.params = sc.params;
    c.until = sc.until;
    c.tmode = s.tmode;
    c.vmode = s.vmode;
    c.maxb = sc.maxb;
    c.fine = s.fine;
    if (s.big == 1) c.maxb = (s.tmode == 0 ? 10 : 5) * sc.maxb;
    c.env = &s.env;
    int depth = 1 + (int)g.below(sc.depth), td = (int)g.below(sc.tdepth + 1);
    if (s.big == 3) {
        depth = sc.depth + 1 + (int)g.below(5);
        td = sc.tdepth < 2 ? sc.tdepth : sc.tdepth + (int)g.below(3);
    }
    s.f = genF(g, c, depth, td);
    // the whole problem may lie far from time 0
    static const long offs[] = {0, 7, 1000, 86400};
    long off = offs[g.pick({8, 1, 2, 1})];
    if (s.tmode >= 2) off = std::min(off, 1000l);  // keeps slope * rounding error on time below the tolerance
    if (huge || (s.fine > 0 && s.fine < 0.01)) off = std::min(off, 7l);
    if (s.tmode < 2 && !huge && s.fine == 0 && off <= 7) tolBase() = 2e-9;
    off = lround(off / unitOf(s.tmode));
    long span = s.tmode == 0 ? 4 : s.tmode == 1 ? 16 : s.tmode == 2 ? 40 : 4000;
    s.t0 = timeOf(s.tmode, off);
    if (g.chance(1, 2)) s.t0 = timeOf(s.tmode, off + ((sc.negTime && g.chance(1, 6)) ? -(long)g.below((uint32_t)span) : (long)g.below((uint32_t)span)));
    if (s.fine > 0) s.t0 += s.fine * (g.pick({1, 3, 1}) - 1);
    s.t1 = s.t0;
    if (sc.interval) s.t1 = timeOf(s.tmode, lround(s.t0 / unitOf(s.tmode)) + 1 + (long)g.below((uint32_t)(s.big == 1 ? (s.tmode < 2 ? 20 : 5) * span : span)));
    if (sc.interval && s.fine > 0) s.t1 += s.fine * (g.pick({1, 3, 1}) - 1);
    DataCfg dc;
    dc.tmode = s.tmode;
    dc.vmode = s.vmode;
    dc.nmax = sc.nmax;
    dc.fine = s.fine;
    if (s.big == 1) {
        dc.nmin = 70;
        dc.nmax = 280;
        dc.cap = 300;
    }
    double h = horizon(s.f, s.env);
    dc.first = std::min(timeOf(s.tmode, off), s.t0);
    int w = g.pick({6, 2, sc.lateStart ? 2 : 0});
    if (w == 1) dc.first = s.t0;
    if (w == 2) dc.first = s.t0 + timeOf(s.tmode, (long)g.below((uint32_t)span));
    dc.last = s.t1 + h;
    s.data = genData(g, s.nsig, dc);
    double m = 0;
    for (auto &r : s.data)
        for (size_t i = 1; i < r.size(); i++) m = std::max(m, std::fabs(r[i]));
    if (mag(s.f, m, s.env) > (huge ? std::max(sc.maxMag, 1e9) : sc.maxMag)) throw Discard("magnitude");
    return s;
}
// a driver loaded with the scenario; violation when the specification is rejected
inline void load(STLRom::STLDriver &d, const Scen &s, bool withData = true) {
    std::ostringstream err;
    std::streambuf *old = std::cerr.rdbuf(err.rdbuf());
    bool ok = d.parse_string(s.spec());
    std::cerr.rdbuf(old);
    if (!ok) fail("valid specification rejected: " + err.str() + "\n" + s.spec());
    if (withData)
        for (auto &r : s.data) d.add_sample(r);
}
inline RefCfg refCfg(const Scen &s) {
    RefCfg r;
    r.data = &s.data;
    r.env = &s.env;
    return r;
}
inline void labelScen(Case &c, const Scen &s) {
    c.label("tdepth=" + std::to_string(tdepth(s.f)));
    static const char *kn[] = {"atom", "not", "and", "or", "imp", "ev", "alw", "until"};
    for (int k = 1; k < 8; k++)
        if (hasKind(s.f, (Node::K)k)) c.label(std::string("has-") + kn[k]);
    c.label("tmode=" + std::to_string(s.tmode));
    if (nonlinear(s.f)) c.label("nonlinear");
    if (s.t0 != 0) c.label("t0!=0");
    if (s.t0 >= 500) c.label("far");
    if (s.vmode == 5) c.label("values-beyond-BigM");
    if (s.fine > 0) c.label("fine-times");
    if (s.vmode >= 6) c.label(s.vmode == 6 ? "values-around-1e-9" : "values-around-1e-6");
    if (s.data[0][0] > s.t0) c.label("late-start");
    if (s.data.size() == 1) c.label("single-sample");
    if (s.data.size() > 64) c.label("more-than-64-samples");
    if (s.nsig > 4) c.label("more-than-4-signals");
    if (s.nsig > 99) c.label("more-than-99-signals");
    if (nnodes(s.f) > 20) c.label("more-than-20-operators");
}

// interpolation and semantics of a monitoring problem
struct Mode {
    bool previous = false;
    int sem = 0;
};
inline void setMode(STLRom::STLDriver &d, const Mode &m) {
    if (m.previous) d.set_interpol("PREVIOUS");
    if (m.sem == 1) d.set_semantics("LEFT_TIME");
    if (m.sem == 2) d.set_semantics("RIGHT_TIME");
}
inline RefCfg modeCfg(const Scen &s, const Mode &m, bool *amb) {
    RefCfg r = refCfg(s);
    r.previous = m.previous;
    r.sem = m.sem;
    if (m.previous || m.sem) r.eps = tolBase() < 1e-7 ? 1e-8 : 1e-6;
    r.ambiguous = amb;
    return r;
}
inline std::string modeName(const Mode &m) {
    static const char *sn[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME"};
    return std::string(sn[m.sem]) + (m.previous ? " PREVIOUS" : " LINEAR");
}

