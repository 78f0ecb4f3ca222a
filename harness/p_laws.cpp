// C11 parameters, C18 laws of the logic, C19 the bound for unknown values
#include <cstring>
#include "sut.h"
using namespace STLRom;

static void quietParse(STLDriver &d, const std::string &t) {
    std::ostringstream err;
    std::streambuf *a = std::cerr.rdbuf(err.rdbuf()), *b = std::cout.rdbuf(err.rdbuf());
    bool ok = d.parse_string(t);
    std::cerr.rdbuf(a);
    std::cout.rdbuf(b);
    if (!ok) fail("valid specification rejected: " + err.str() + "\n" + t);
}
static std::string dec12(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.12f", v);
    std::string s = b;
    while (s.back() == '0') s.pop_back();
    if (s.back() == '.') s.pop_back();
    return s == "-0" ? "0" : s;
}
static ExprP substE(const ExprP &e, const Env &env) {
    if (!e) return e;
    auto r = std::make_shared<Expr>(*e);
    if (e->k == Expr::PAR) {
        r->k = Expr::CST;
        r->num = Num(dec12(env.par.at(e->par)));
        r->par.clear();
    }
    r->l = substE(e->l, env);
    r->r = substE(e->r, env);
    return r;
}
static NodeP subst(const NodeP &n, const Env &env) {
    if (!n) return n;
    auto r = std::make_shared<Node>(*n);
    r->el = substE(n->el, env);
    r->er = substE(n->er, env);
    for (Bnd *b : {&r->a, &r->b})
        if (!b->par.empty()) {
            b->num = Num(dec12(env.par.at(b->par)));
            b->par.clear();
        }
    r->l = subst(n->l, env);
    r->r = subst(n->r, env);
    return r;
}
static bool bOk(const NodeP &n, const Env &e) {
    if (!n) return true;
    if (n->k >= Node::EV) {
        double a = e.bound(n->a), b = e.bound(n->b);
        if (a < 0 || b < a) return false;
    }
    return bOk(n->l, e) && bOk(n->r, e);
}
static void c11(Gen &g, Case &c) {
    resetGlobals();
    ScenCfg sc;
    sc.params = true;
    sc.huge = true;
    Scen s = genScen(g, sc);
    if (s.env.par.empty()) throw Discard("no parameter");
    // another valuation
    Env e2 = s.env;
    bool changed = false;
    for (auto &p : s.env.par) {
        if (!g.chance(2, 3)) continue;
        double old = e2.par[p.first];
        e2.par[p.first] = g.chance(1, 2) ? genVal(g, s.vmode).v : genTime(g, s.tmode, 5).v;
        if (g.chance(1, 6)) e2.par[p.first] = Num::dec(lround(old * 1e6) + 1 + (long)g.below(g.chance(1, 2) ? 9 : 900), 6).v;  // hardly changed
        if (!bOk(s.f, e2)) e2.par[p.first] = old;
        if (e2.par[p.first] != p.second) changed = true;
    }
    double last = s.t0 + std::max(horizon(s.f, s.env), horizon(s.f, e2)) + 1e-9;
    long k = lround(s.data.back()[0] / unitOf(s.tmode));
    while (s.data.back()[0] < last) {
        auto r = s.data.back();
        k += 1 + (long)g.below(s.tmode == 3 ? 1000 : 3);
        r[0] = timeOf(s.tmode, k);
        if (g.chance(1, 2)) r[1] = genVal(g, s.vmode).v;
        s.data.push_back(r);
    }
    c.text = s.show() + "then";
    for (auto &p : e2.par) c.text += " " + p.first + " = " + dec12(p.second);
    c.text += "\n";
    c.commit();
    double mx = 0;
    for (auto &r : s.data)
        for (size_t i = 1; i < r.size(); i++) mx = std::max(mx, std::fabs(r[i]));
    if (mag(s.f, mx, e2) > 4000) throw Discard("magnitude");
    auto expect = [&](const Env &e) {
        RefCfg r = refCfg(s);
        r.env = &e;
        return refEval(s.f, s.t0, s.t0, r).lo.p[0];
    };
    double w1 = expect(s.env), w2 = expect(e2);
    auto check = [&](const std::vector<double> &v, double w, const char *what) {
        c.checks++;
        if (v.size() != 3) fail(std::string(what) + ": no value");
        for (double x : v)
            if (!near(x, w)) fail(std::string(what) + ": " + num(v[0]) + " [" + num(v[1]) + ", " + num(v[2]) + "], expected " + num(w));
    };
    auto evalM = [&](STLMonitor &m) {
        double r = m.eval_rob(s.t0);
        return std::vector<double>{r, m.get_lower_rob(), m.get_upper_rob()};
    };
    STLDriver d;
    load(d, s);
    check(d.get_online_rob("phi", s.t0), w1, "driver, declared values");
    STLMonitor m = d.get_monitor("phi"), m2 = m;
    check(evalM(m), w1, "monitor, declared values");
    // the same formula with constants
    {
        Scen t = s;
        t.f = subst(s.f, e2);
        t.env.par.clear();
        STLDriver dc;
        load(dc, t);
        check(dc.get_online_rob("phi", s.t0), w2, "constants instead of parameters");
    }
    int way = g.pick({3, 1});
    if (way == 0)
        for (auto &p : e2.par) d.set_param(p.first, p.second);
    else {
        std::string t = "param ";
        bool first = true;
        for (auto &p : e2.par) t += (first ? "" : ", ") + p.first + "=" + dec12(p.second), first = false;
        quietParse(d, t + "\n");
    }
    for (auto &p : e2.par) {
        c.checks++;
        if (way ? !near(d.get_param(p.first), p.second, 1e-12) : d.get_param(p.first) != p.second) fail("get_param(" + p.first + ") = " + num(d.get_param(p.first)) + " after it was set to " + num(p.second));
    }
    check(d.get_online_rob("phi", s.t0), w2, way ? "driver, values declared again" : "driver after set_param");
    check(evalM(m), w1, "monitor made before the driver's parameters changed");
    for (auto &p : e2.par) {
        m.set_param(p.first, p.second);
        if (m.get_param(p.first) != p.second) fail("get_param(" + p.first + ") of a monitor = " + num(m.get_param(p.first)) + " after it was set to " + num(p.second));
    }
    check(evalM(m), w2, "monitor after set_param");
    check(evalM(m2), w1, "copy of the monitor made before");
    STLMonitor m3 = d.get_monitor("phi");
    check(evalM(m3), w2, "monitor made after the change");
    for (auto &p : s.env.par) {
        m3.set_param(p.first, p.second);
        if (m3.get_param(p.first) != p.second) fail("get_param of the monitor after set_param");
    }
    check(evalM(m3), w1, "monitor, parameters set back");
    check(d.get_online_rob("phi", s.t0), w2, "driver after a monitor's parameters changed");
    labelScen(c, s);
    for (auto &p : s.env.par)
        if (p.second != e2.par[p.first] && std::fabs(p.second - e2.par[p.first]) < 1e-3) {
            c.label("tiny-change");
            break;
        }
    c.nontrivial = changed && !near(w1, w2);
}
static Reg r11({"C11", c11, 45000, 360000, "random formula with parameters in expressions and bounds, two valuations; non-trivial: the valuations give different robustness", false});

// ---- C18 ----
static NodeP mk(Node::K k, NodeP l, NodeP r = nullptr) {
    auto n = std::make_shared<Node>();
    n->k = k;
    n->l = l;
    n->r = r;
    return n;
}
static NodeP tmp(Node::K k, const Num &a, const Num &b, NodeP l, NodeP r = nullptr) {
    auto n = mk(k, l, r);
    n->a.num = a;
    n->b.num = b;
    return n;
}
static Num tnum(int tmode, long k) { return tmode == 0 ? Num::dec(k, 0) : tmode == 1 ? Num::dbl(k * 0.25) : tmode == 2 ? Num::dec(k, 1) : Num::dec(k, 3); }

static void c18(Gen &g, Case &c) {
    resetGlobals();
    int tmode = (int)g.below(4), vmode = (int)g.below(4), nsig = 1 + (int)g.below(3);
    if (g.chance(1, 16)) nsig = 4 + (int)g.below(6);
    bool huge = tmode < 2 && g.chance(1, 10);
    double fine = tmode < 2 && !huge && g.chance(1, 6) ? std::ldexp(1., -4 * (1 + (int)g.below(5))) : 0;
    if (huge) vmode = 5;
    Env env;
    GenCfg gc;
    gc.nsig = nsig;
    gc.tmode = tmode;
    gc.vmode = vmode;
    gc.maxb = 3;
    gc.fine = fine;
    gc.env = &env;
    int law = (int)g.below(20);
    static const char *names[] = {"not not p = p", "De Morgan", "implication", "ev/alw duality", "ev ev", "alw alw", "ev of or", "alw of and", "until split", "true until", "until <= ev", "flip atom", "until window", "until of or",
                                  "until of and", "monotone", "absorption", "window split", "redundant samples", "time shift and renaming"};
    bool windows = law == 8 || law == 9 || law == 10 || law == 12 || law == 17 || law == 18;  // sampling instants differ
    gc.nonlin = !windows && g.chance(1, 2);
    if (!huge && law < 18 && law != 9 && g.chance(1, 12)) {
        vmode = gc.vmode = 6;
        gc.nonlin = false;
        valueScale() = std::ldexp(1., -30);
        c.label("values-around-1e-9");
    }
    auto F = [&](int d, int td) { return genF(g, gc, d, td); };
    NodeP p = F((int)g.below(4), (int)g.below(3)), q = F((int)g.below(3), (int)g.below(2)), r = F((int)g.below(3), (int)g.below(2));
    long span = tmode == 0 ? 4 : tmode == 1 ? 12 : tmode == 2 ? 40 : 4000;
    auto K = [&] { return g.chance(1, 4) ? 0l : (long)g.below((uint32_t)span); };
    long a = K(), b = a + K(), a2 = K(), b2 = a2 + K();
    auto T = [&](long k) { return tnum(tmode, k); };
    const NodeP N = nullptr;
    auto no = [&](NodeP x) { return mk(Node::NOT, x); };
    auto ev = [&](long i, long j, NodeP x) { return tmp(Node::EV, T(i), T(j), x); };
    auto alw = [&](long i, long j, NodeP x) { return tmp(Node::ALW, T(i), T(j), x); };
    auto unt = [&](long i, long j, NodeP x, NodeP y) { return tmp(Node::UNTIL, T(i), T(j), x, y); };
    auto an = [&](NodeP x, NodeP y) { return mk(Node::AND, x, y); };
    auto orr = [&](NodeP x, NodeP y) { return mk(Node::OR, x, y); };
    NodeP A, B;
    int rel = 0;           // 0 equal, 1 A <= B
    bool interval = false; // the law also holds for the interval on partial data
    switch (law) {
        case 0: A = no(no(p)), B = p, interval = true; break;
        case 1:
            if (g.chance(1, 2))
                A = no(an(p, q)), B = orr(no(p), no(q));
            else
                A = no(orr(p, q)), B = an(no(p), no(q));
            interval = true;
            break;
        case 2: A = mk(Node::IMP, p, q), B = orr(no(p), q), interval = true; break;
        case 3: A = no(ev(a, b, p)), B = alw(a, b, no(p)), interval = true; break;
        case 4: A = ev(a, b, ev(a2, b2, p)), B = ev(a + a2, b + b2, p); break;
        case 5: A = alw(a, b, alw(a2, b2, p)), B = alw(a + a2, b + b2, p); break;
        case 6: A = ev(a, b, orr(p, q)), B = orr(ev(a, b, p), ev(a, b, q)); break;
        case 7: A = alw(a, b, an(p, q)), B = an(alw(a, b, p), alw(a, b, q)); break;
        case 8: A = unt(a, b, p, q), B = an(alw(0, a, p), ev(a, a, unt(0, b - a, p, q))); break;
        case 9: {
            auto t = std::make_shared<Node>();
            t->el = mkCst(Num("5000"));
            t->er = mkCst(Num("-1"));
            A = unt(a, b, t, p), B = ev(a, b, p);
            break;
        }
        case 10: A = unt(a, b, p, q), B = g.chance(1, 2) ? ev(a, b, q) : alw(0, a, p), rel = 1; break;
        case 11: {
            p = genAtom(g, gc);
            auto f = std::make_shared<Node>(*p);
            f->less = !p->less;
            if (g.chance(1, 2))
                A = p, B = no(f);
            else {
                std::swap(f->el, f->er);
                A = p, B = f;
            }
            if (g.chance(1, 2)) A = ev(a, b, A), B = ev(a, b, B);
            interval = true;
            break;
        }
        case 12: A = unt(a, b, p, q), B = unt(a - (long)g.below((uint32_t)a + 1), b + K(), p, q), rel = 1; break;
        case 13: A = unt(a, b, p, orr(q, r)), B = orr(unt(a, b, p, q), unt(a, b, p, r)); break;
        case 14: A = unt(a, b, an(p, r), q), B = an(unt(a, b, p, q), unt(a, b, r, q)); break;
        case 15:
            A = an(p, q), B = g.chance(1, 2) ? p : orr(p, q), rel = 1;
            if (g.chance(1, 2)) A = alw(a, b, A), B = alw(a, b, B);
            break;
        case 16:
            A = g.chance(1, 2) ? an(p, orr(p, q)) : orr(p, an(q, p)), B = p;
            break;
        case 17: {
            long m = a + (long)g.below((uint32_t)(b - a + 1));
            if (g.chance(1, 2))
                A = ev(a, b, p), B = orr(ev(a, m, p), ev(m, b, p));
            else
                A = alw(a, b, p), B = an(alw(a, m, p), alw(m, b, p));
            break;
        }
        default: A = B = p; break;
    }
    double h = std::max(horizon(A, env), horizon(B, env));
    // now and then at negative times
    long base = g.chance(1, 5) ? -1 - (long)g.below((uint32_t)(3 * span)) : 0;
    if (base) c.label("negative-times");
    long k0 = base + K();
    double t0 = timeOf(tmode, k0);
    DataCfg dc;
    dc.tmode = tmode;
    dc.vmode = vmode;
    dc.fine = law < 18 ? fine : 0;
    dc.first = g.chance(1, 2) ? timeOf(tmode, base) : t0;
    dc.last = t0 + h;
    Rows data = genData(g, nsig, dc);
    double mx = 0;
    for (auto &x : data)
        for (size_t i = 1; i < x.size(); i++) mx = std::max(mx, std::fabs(x[i]));
    if (huge && law == 9) throw Discard("magnitude");
    if (mag(A, mx, env) > (huge ? 1e9 : law == 9 ? 6000 : 4000) || mag(B, mx, env) > (huge ? 1e9 : 4000)) throw Discard("magnitude");
    if (huge) interval = false, c.label("values-beyond-BigM");
    if (fine > 0) c.label("fine-times");
    if (interval && g.chance(1, 2)) {
        data.resize(1 + g.below((uint32_t)data.size()));
        c.label("partial");
    }
    bool prev = tmode < 2 && g.chance(1, 4);
    // the operands look at the same part of the trace on both sides
    bool sameWindows = vmode != 6 && (law <= 3 || law == 6 || law == 7 || (law >= 13 && law <= 16) || law >= 18);
    int sem = sameWindows && tmode < 2 && g.chance(1, 4) ? 1 + (int)g.below(2) : 0;
    static const char *semName[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME"};
    auto modes = [&](STLDriver &x) {
        if (prev) x.set_interpol("PREVIOUS");
        if (sem) x.set_semantics(semName[sem]);
    };
    auto spec = [&](const std::vector<int> &order, const char *const *nm) {
        std::string s = "signal ";
        for (size_t i = 0; i < order.size(); i++) s += std::string(i ? ", " : "") + nm[order[i]];
        return s + "\n";
    };
    const char *plain[12];
    for (int i = 0; i < 12; i++) plain[i] = sigName(i);
    std::vector<int> id;
    for (int i = 0; i < nsig; i++) id.push_back(i);
    std::string sA = spec(id, plain) + "phi := " + printF(A) + "\npsi := " + printF(B) + "\n";
    std::ostringstream o;
    o.precision(17);
    o << "law: " << names[law] << (prev ? ", PREVIOUS" : "") << ", " << semName[sem] << "\n" << sA << "t0 = " << t0 << "\n" << printRows(data);
    c.text = o.str();
    c.commit();
    STLDriver d;
    quietParse(d, sA);
    for (auto &x : data) d.add_sample(x);
    modes(d);
    auto va = d.get_online_rob("phi", t0);
    std::vector<double> vb;
    std::string how = "psi";
    if (law < 18)
        vb = d.get_online_rob("psi", t0);
    else if (law == 18) {
        // samples on the segments add nothing
        Rows e;
        int added = 0;
        for (size_t i = 0; i < data.size(); i++) {
            e.push_back(data[i]);
            if (i + 1 < data.size() && g.chance(1, 2)) {
                long x = lround(data[i][0] / unitOf(tmode)), y = lround(data[i + 1][0] / unitOf(tmode));
                if (y - x < 2) continue;
                long m = x + 1 + (long)g.below((uint32_t)(y - x - 1));
                std::vector<double> n = {timeOf(tmode, m)};
                double w = (n[0] - data[i][0]) / (data[i + 1][0] - data[i][0]);
                for (int j = 1; j <= nsig; j++) n.push_back(prev ? data[i][j] : data[i][j] + w * (data[i + 1][j] - data[i][j]));
                e.push_back(n);
                added++;
            }
        }
        auto n = data.back();
        n[0] = timeOf(tmode, lround(n[0] / unitOf(tmode)) + 1);
        n[1] += 100;
        e.push_back(n);
        c.text += "with extra samples\n" + printRows(e);
        c.commit();
        STLDriver d2;
        quietParse(d2, sA);
        for (auto &x : e) d2.add_sample(x);
        modes(d2);
        vb = d2.get_online_rob("phi", t0);
        how = "with extra samples";
    } else {
        // time shift, and the columns in another order under other names
        static const char *others[] = {"beta", "alpha", "Gx_1", "x", "w", "y", "Zz", "b_0", "u7"};
        long sh = (long)g.below(200) * (tmode == 3 ? 10 : 1) * (g.chance(1, 3) ? -1 : 1);
        if (tmode < 2 && g.chance(1, 10)) sh *= 1000;
        std::vector<int> order = id;
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[g.below((uint32_t)i)]);
        std::string f = printF(A), rn;
        for (size_t i = 0; i < f.size(); i++) {
            bool rep = false;
            for (int j = 0; j < nsig && !rep; j++)
                if (f.compare(i, strlen(plain[j]) + 3, std::string(plain[j]) + "[t]") == 0 && (i == 0 || (!isalnum((unsigned char)f[i - 1]) && f[i - 1] != '_')))
                    rn += others[j], i += strlen(plain[j]) - 1, rep = true;
            if (!rep) rn += f[i];
        }
        std::string sB = spec(order, others) + "phi := " + rn + "\n";
        STLDriver d2;
        c.text += "against\n" + sB + "shifted by " + num(timeOf(tmode, sh)) + "\n";
        c.commit();
        quietParse(d2, sB);
        for (auto &x : data) {
            std::vector<double> n = {timeOf(tmode, lround(x[0] / unitOf(tmode)) + sh)};
            for (int j : order) n.push_back(x[j + 1]);
            d2.add_sample(n);
        }
        modes(d2);
        vb = d2.get_online_rob("phi", timeOf(tmode, k0 + sh));
        how = "shifted and renamed";
    }
    if (va.size() != 3 || vb.size() != 3) fail("no value");
    for (int i = interval ? 1 : 0; i < 3; i++) {
        c.checks++;
        bool ok = rel == 0 ? near(va[i], vb[i]) : va[i] <= vb[i] || near(va[i], vb[i]);
        if (!ok) fail(std::string(names[law]) + ": phi " + num(va[i]) + (rel ? ", not below " : ", but ") + how + " " + num(vb[i]) + (i == 1 ? " (lower bound)" : i == 2 ? " (upper bound)" : ""));
    }
    c.label(std::string("law ") + names[law]);
    if (sem) c.label(semName[sem]);
    c.nontrivial = tdepth(A) > 0 || tdepth(B) > 0;
}
static Reg r18({"C18", c18, 200000, 1600000, "a law of the logic instantiated with random formulas and traces; non-trivial: a temporal operator occurs", false});

static void c19(Gen &g, Case &c) {
    resetGlobals();
    static const double Ms[] = {0.5, 3, 10, 50, 100, 1000, 2500.5, 10000, 1e6, 1e9};
    bool complete = g.chance(1, 3);
    ScenCfg sc;
    sc.huge = sc.fine = true;
    sc.tdepth = complete ? 2 : 1;
    Scen s = genScen(g, sc);
    if (!complete) {
        s.data.resize(1 + g.below((uint32_t)s.data.size()));
        if (s.tmode >= 2)
            for (auto &r : s.data) r[0] += 0.00037;
    }
    double m = 0;
    for (auto &r : s.data)
        for (size_t i = 1; i < r.size(); i++) m = std::max(m, std::fabs(r[i]));
    m = mag(s.f, m, s.env);
    c.text = s.show();
    STLDriver d;
    load(d, s);
    std::unique_ptr<STLMonitor> old;
    int n = 1 + (int)g.below(3);
    for (int k = 0; k < n; k++) {
        // a bound for all the values, unless nothing is unknown
        double M = g.chance(1, 2) ? Ms[g.below(10)] : g.range(1, 99999) * 0.001 * (1 + 99 * g.below(2));
        if (!complete && M < m) M = m * (1 + 0.1 * g.below(30)) + 0.1;
        c.text += "BigM = " + num(M) + "\n";
        c.commit();
        Signal::set_BigM(M);
        c.checks++;
        if (Signal::get_BigM() != M) fail("get_BigM() = " + num(Signal::get_BigM()) + " after set_BigM(" + num(M) + ")");
        RefCfg r = refCfg(s);
        r.M = M;
        LH w = refEval(s.f, s.t0, s.t0, r);
        double lo = w.lo.p[0], hi = w.hi.p[0];
        // values known in full are never compared to M
        auto check = [&](const std::string &what, double l, double h) {
            c.checks += 2;
            if (!near(l, lo)) fail(what + ": lower bound " + num(l) + ", expected " + num(lo));
            if (!near(h, hi)) fail(what + ": upper bound " + num(h) + ", expected " + num(hi));
        };
        auto got = d.get_online_rob("phi", s.t0);
        check("driver", got[1], got[2]);
        STLMonitor mo = d.get_monitor("phi");
        c.checks++;
        if (mo.get_lower_rob() != -M || mo.get_upper_rob() != M) fail("a new monitor has the interval [" + num(mo.get_lower_rob()) + ", " + num(mo.get_upper_rob()) + "], BigM is " + num(M));
        mo.eval_rob(s.t0);
        check("monitor", mo.get_lower_rob(), mo.get_upper_rob());
        if (old) {
            old->eval_rob(s.t0);
            check("monitor made before BigM was changed", old->get_lower_rob(), old->get_upper_rob());
        }
        if (g.chance(1, 2)) old.reset(new STLMonitor(g.chance(1, 2) ? mo : d.get_monitor("phi")));
        if (g.chance(1, 4)) {
            STLDriver e(d);
            got = e.get_online_rob("phi", s.t0);
            check("copy of the driver", got[1], got[2]);
        }
        if (g.chance(1, 6)) {
            try {
                Signal::set_semantics("nothing");
            } catch (const std::invalid_argument &) {
            }
            STLDriver e;
            std::ostringstream sink;
            std::streambuf *ob = std::cerr.rdbuf(sink.rdbuf());
            e.parse_string("signal x\nsignal\n");
            std::cerr.rdbuf(ob);
            if (Signal::get_BigM() != M) fail("get_BigM() = " + num(Signal::get_BigM()) + " after a rejected call and a rejected text");
        }
        if (M < m) c.label("values exceed BigM");
        if (!complete && M != 10000 && (lo == -M || hi == M)) c.nontrivial = true;
    }
    labelScen(c, s);
    c.label(complete ? "complete" : "partial");
    if (n > 1) c.label("BigM changed during the life of the objects");
    resetGlobals();
}
static Reg r19({"C19", c19, 120000, 960000, "random BigM, formula and (partial) trace; non-trivial: BigM is not the default and one bound is unknown", false});
