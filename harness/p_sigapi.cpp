// C14 acceptance of samples, C21 building signals from samples
#include <cmath>
#include <unistd.h>

#include <cstring>
#include <fstream>

#include "sut.h"
using namespace STLRom;

namespace {
struct Hush {
    std::ostringstream o;
    std::streambuf *a, *b;
    Hush() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
    ~Hush() {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
    }
};
std::string rowText(const std::vector<double> &r) {
    std::string s = "[";
    char b[40];
    for (size_t i = 0; i < r.size(); i++) {
        snprintf(b, sizeof b, "%s%.17g", i ? ", " : "", r[i]);
        s += b;
    }
    return s + "]";
}
bool rowsEq(const Rows &a, const Rows &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i].size() != b[i].size() || (a[i].size() && memcmp(a[i].data(), b[i].data(), a[i].size() * sizeof(double)))) return false;
    return true;
}
}  // namespace

static void c14(Gen &g, Case &c) {
    resetGlobals();
    int nsig = 1 + (int)g.below(4);
    Env env;
    GenCfg gc;
    gc.nsig = nsig;
    gc.env = &env;
    gc.maxb = 2;
    NodeP f = genF(g, gc, (int)g.below(3), 1);
    struct O {
        std::unique_ptr<STLDriver> d;
        std::unique_ptr<STLMonitor> m;
        Rows rows;
        int nsig;
    };
    Scen s;
    s.nsig = nsig;
    s.f = f;
    c.text = s.spec();
    std::vector<O> objs(1);
    objs[0].d.reset(new STLDriver);
    load(*objs[0].d, s, false);
    objs[0].nsig = nsig;
    int n = 4 + (int)g.below(14), rej = 0;
    if (g.chance(1, 60)) n += (int)g.below(g.chance(1, 10) ? 1500 : 200);
    auto value = [&](O &o, double t, std::vector<double> &v) {
        Hush h;
        if (o.rows.empty()) return false;
        if (o.d)
            v = o.d->get_online_rob("phi", t);
        else
            v = {o.m->eval_rob(t), o.m->get_lower_rob(), o.m->get_upper_rob()};
        return true;
    };
    for (int i = 0; i < n; i++) {
        size_t k = g.below((uint32_t)objs.size());
        if (objs.size() < 4 && g.chance(1, 5)) {
            O q;
            O &src = objs[k];
            Hush h;
            q.rows = src.rows;
            q.nsig = src.nsig;
            if (src.d && g.chance(2, 3))
                q.m.reset(new STLMonitor(src.d->get_monitor("phi")));
            else if (src.d)
                q.d.reset(new STLDriver(*src.d));
            else {
                q.m.reset(new STLMonitor(*src.m));
                if (g.chance(1, 3)) {
                    q.m->reset_signal_data();
                    q.rows.clear();
                }
            }
            c.text += "object " + std::to_string(objs.size()) + " from " + std::to_string(k) + (q.m ? " (monitor)" : " (driver)") + "\n";
            objs.push_back(std::move(q));
            continue;
        }
        O &o = objs[k];
        int nsig = o.nsig;
        if (o.d && g.chance(1, 14)) {  // a further text declares more signals
            int more = 1 + (int)g.below(2);
            std::string tx = "signal ";
            for (int j = 0; j < more; j++) tx += std::string(j ? ", " : "") + "more" + std::to_string(nsig + j);
            c.text += "object " + std::to_string(k) + " parses " + tx + "\n";
            c.commit();
            Hush h;
            if (!o.d->parse_string(tx)) fail("valid declaration rejected");
            o.nsig += more;
            c.label("signals declared later");
            if (!rowsEq(o.d->data, o.rows)) fail("declaring signals changed the data");
            continue;
        }
        double last = o.rows.empty() ? -1 : o.rows.back()[0];
        if (g.chance(1, 400)) {
            int cnt = 1 + (int)g.below(g.chance(1, 8) ? 9000 : 1500);
            c.text += "object " + std::to_string(k) + " add_sample " + std::to_string(cnt) + " times, one per time unit\n";
            c.commit();
            for (int j = 0; j < cnt; j++) {
                std::vector<double> q{last + 1 + j};
                for (int a = 0; a < nsig; a++) q.push_back((j * 7 + a * 3) % 13 - 6);
                std::vector<double> arg = q;
                if (o.d) o.d->add_sample(arg);
                else o.m->add_sample(arg);
                o.rows.push_back(q);
            }
            c.checks++;
            if (!rowsEq(o.d ? o.d->data : o.m->data, o.rows)) fail("data of object " + std::to_string(k) + " after " + std::to_string(cnt) + " valid samples: " + std::to_string((o.d ? o.d->data : o.m->data).size()) + " rows, expected " + std::to_string(o.rows.size()));
            c.label("burst of samples");
            continue;
        }
        std::vector<double> r;
        double t;
        switch (g.pick({8, 1, 1, 1, 1, 1, 1, 1, 1})) {
            case 0: t = last + 1 + g.below(3); break;
            case 1: t = last; break;
            case 2: t = last - 1 - g.below(2); break;
            case 3: t = std::nextafter(last, INFINITY); break;
            case 4: t = std::nextafter(last, -INFINITY); break;
            case 5: t = NAN; break;
            case 6: t = -0.0; break;
            case 7: t = -1000; break;
            default: t = last + 1e-9; break;
        }
        int w = nsig + 1;
        switch (g.pick({10, 1, 1, 1, 1})) {
            case 1: w--; break;
            case 2: w++; break;
            case 3: w = 0; break;
            case 4: w = (int)g.below(9); break;
            default: break;
        }
        for (int j = 0; j < w; j++) r.push_back(j ? genVal(g, 1).v : t);
        bool ok = w == nsig + 1 && !std::isnan(t) && (o.rows.empty() || t > last);
        c.text += "object " + std::to_string(k) + " add_sample " + rowText(r) + (ok ? "" : "  (not a valid next sample)") + "\n";
        c.commit();
        std::vector<double> before, after;
        bool have = !ok && value(o, 0, before);
        bool thrown = false;
        std::vector<double> arg = r;
        try {
            if (o.d) o.d->add_sample(arg);
            else o.m->add_sample(arg);
        } catch (const std::invalid_argument &) {
            thrown = true;
        }
        c.checks += 2;
        if (thrown == ok) fail(std::string(thrown ? "rejected" : "accepted") + ": " + rowText(r) + " after " + std::to_string(o.rows.size()) + " samples" + (o.rows.empty() ? "" : ", the last one at " + num(last)));
        if (ok) o.rows.push_back(r);
        rej += !ok;
        if (have) {
            value(o, 0, after);
            c.checks++;
            for (int q = 0; q < 3; q++)
                if (!(before[q] == after[q] || (std::isnan(before[q]) && std::isnan(after[q])))) fail("a rejected sample changed value " + std::to_string(q) + " from " + num(before[q]) + " to " + num(after[q]));
        }
        for (size_t q = 0; q < objs.size(); q++) {
            const Rows &d = objs[q].d ? objs[q].d->data : objs[q].m->data;
            c.checks++;
            if (!rowsEq(d, objs[q].rows)) fail("data of object " + std::to_string(q) + ":\n" + printRows(d) + "expected:\n" + printRows(objs[q].rows));
        }
    }
    c.nontrivial = rej > 0 && n - rej > 1;
}
static Reg r14({"C14", c14, 80000, 640000, "random samples offered to drivers, monitors and copies, many of them not acceptable; non-trivial: accepted and rejected ones", false});

// ---------------------------------------------------------------- C21
namespace {
struct MS {
    double t, v, d;
};
struct MSig {
    std::vector<MS> s;
    double b = 0, e = 0;
    void append(double t, double v, double d, bool prev) {
        if (!s.empty() && t <= e) return;
        if (prev) d = 0;
        if (s.empty()) b = t;
        else if (!prev) s.back().d = (v - s.back().v) / (t - s.back().t);
        s.push_back({t, v, d});
        e = t;
    }
    double at(double t) const {
        size_t i = s.size() - 1;
        while (i > 0 && s[i].t > t) i--;
        return s[i].v + s[i].d * (t - s[i].t);
    }
};
std::string showS(const Signal &s) {
    std::ostringstream o;
    o.precision(12);
    o << "[" << s.beginTime << "," << s.endTime << "]";
    for (auto &x : s) o << " (" << x.time << ": " << x.value << " slope " << x.derivative << ")";
    return o.str();
}
std::string showM(const MSig &s) {
    std::ostringstream o;
    o.precision(12);
    o << "[" << s.b << "," << s.e << "]";
    for (auto &x : s.s) o << " (" << x.t << ": " << x.v << " slope " << x.d << ")";
    return o.str();
}
void same(Case &c, const std::string &what, const Signal &s, const MSig &m) {
    c.checks++;
    bool ok = s.size() == m.s.size() && (m.s.empty() || (near(s.beginTime, m.b, 1e-12) && near(s.endTime, m.e, 1e-12)));
    for (size_t i = 0; ok && i < m.s.size(); i++) ok = s[i].time == m.s[i].t && near(s[i].value, m.s[i].v, 1e-9) && near(s[i].derivative, m.s[i].d, 1e-9);
    if (!ok) fail(what + ": " + showS(s) + "\nexpected " + showM(m));
}
}  // namespace

static void c21(Gen &g, Case &c) {
    resetGlobals();
    bool prev = g.chance(1, 2);
    Signal::set_interpol(prev ? "PREVIOUS" : "LINEAR");
    int tm = (int)g.below(4), vm = (int)g.below(4);
    if (tm < 2 && g.chance(1, 10)) vm = 5;
    c.text = std::string(prev ? "PREVIOUS" : "LINEAR") + "\n";
    std::vector<Signal> sg(2);
    std::vector<MSig> ms(2);
    int n = 2 + (int)g.below(14);
    long k[2] = {(long)g.below(5) - 2, 0};
    if (g.chance(1, 8)) k[0] += 86400, k[1] += 86400 - (long)g.below(10);
    bool lng = g.chance(1, 40);
    if (lng) n += 100 + (int)g.below(150), c.label("long");
    for (int i = 0; i < n; i++) {
        int w = (int)g.below(2);
        switch (g.pick({8, 3, 1, 2, 1, 2, lng ? 0 : 1, lng ? 0 : 1, 1, lng ? 0 : 1, lng ? 0 : 1})) {
            case 0:
            case 1: {
                bool withD = g.chance(1, 3);
                k[w] += g.chance(1, 6) ? -(long)g.below(3) : 1 + (long)g.below(tm == 3 ? 900 : 5);
                double t = timeOf(tm, k[w]), v = genVal(g, vm).v, d = withD ? g.sint(6) * 0.5 : 0;
                c.text += "s" + std::to_string(w) + ".appendSample(" + num(t) + ", " + num(v) + (withD ? ", " + num(d) : "") + ")\n";
                c.commit();
                withD ? sg[w].appendSample(t, v, d) : sg[w].appendSample(t, v);
                ms[w].append(t, v, d, prev);
                break;
            }
            case 2: {  // a new signal from arrays
                int m = g.chance(1, 30) ? 30 + (int)g.below(100) : 1 + (int)g.below(6);
                std::vector<double> T, V;
                MSig x;
                long q = g.sint(5);
                c.text += "s" + std::to_string(w) + " = Signal(";
                for (int j = 0; j < m; j++) {
                    T.push_back(timeOf(tm, q));
                    V.push_back(genVal(g, vm).v);
                    x.append(T.back(), V.back(), 0, prev);
                    c.text += num(T.back()) + ": " + num(V.back()) + (j + 1 < m ? ", " : ")\n");
                    q += 1 + (long)g.below(tm == 3 ? 900 : 4);
                }
                c.commit();
                sg[w] = Signal(T.data(), V.data(), m);
                ms[w] = x;
                k[w] = q;
                break;
            }
            case 3: {
                c.text += "s" + std::to_string(w) + ".appendSignal(s" + std::to_string(1 - w) + ")\n";
                c.commit();
                Signal o = sg[1 - w];
                sg[w].appendSignal(sg[1 - w]);
                for (auto &x : ms[1 - w].s) ms[w].append(x.t, x.v, x.d, prev);
                same(c, "argument of appendSignal", sg[1 - w], ms[1 - w]);
                k[w] = std::max(k[0], k[1]);
                break;
            }
            case 4:
                if (ms[w].s.empty()) break;
                // the end may lie after the last sample
                if (g.chance(1, 2)) {
                    long add = 1 + (long)g.below(4);
                    k[w] += add;
                    double e = timeOf(tm, k[w]);
                    if (e > ms[w].e) sg[w].endTime = ms[w].e = e;
                    if (g.chance(1, 3)) {  // and samples may follow
                        c.text += "s" + std::to_string(w) + ".endTime = " + num(ms[w].e) + "\n";
                        c.label("end moved");
                        break;
                    }
                }
                c.text += "s" + std::to_string(w) + ".addLastSample() with end " + num(ms[w].e) + "\n";
                c.commit();
                sg[w].addLastSample();
                if (ms[w].e > ms[w].s.back().t) ms[w].s.push_back({ms[w].e, ms[w].at(ms[w].e), 0});
                break;
            case 5: {
                c.text += "copy of s" + std::to_string(w) + "\n";
                c.commit();
                Signal cp(sg[w]);
                same(c, "copy", cp, ms[w]);
                cp.appendSample(1e6, 1);
                cp.shift(3);
                cp = sg[1 - w];
                same(c, "assigned copy", cp, ms[1 - w]);
                break;
            }
            case 6: {  // other modes do not change what is already there
                c.text += "print s" + std::to_string(w) + "\n";
                c.commit();
                std::ostringstream o;
                o << sg[w];
                std::istringstream in(o.str());
                std::string l;
                size_t j = 0;
                if (ms[w].s.empty()) {
                    if (o.str() != "EMPTY\n") fail("an empty signal is printed as " + o.str());
                    break;
                }
                std::getline(in, l);
                double hb, he;
                if (sscanf(l.c_str(), "def = [%lf, %lf)", &hb, &he) != 2 || !near(hb, ms[w].b, 1e-5) || !near(he, ms[w].e, 1e-5)) fail("the domain [" + num(ms[w].b) + "," + num(ms[w].e) + "] is printed as " + l);
                while (std::getline(in, l)) {
                    std::istringstream li(l);
                    double a, b, d;
                    if (!(li >> a >> b >> d)) continue;
                    c.checks++;
                    if (j >= ms[w].s.size() || !near(a, ms[w].s[j].t, 1e-6) || !near(b, ms[w].s[j].v, 1e-6) || !near(d, ms[w].s[j].d, 1e-6)) fail("printed as\n" + o.str() + "expected " + showM(ms[w]));
                    j++;
                }
                if (j != ms[w].s.size()) fail("printed " + std::to_string(j) + " samples of " + std::to_string(ms[w].s.size()) + ":\n" + o.str());
                break;
            }
            case 8:  // the mode in force when a sample is added decides
                prev = !prev;
                c.text += std::string("set_interpol ") + (prev ? "PREVIOUS" : "LINEAR") + "\n";
                c.commit();
                Signal::set_interpol(prev ? "PREVIOUS" : "LINEAR");
                break;
            case 9: {  // the samples as a file
                if (ms[w].s.empty()) break;
                char dir[] = "/tmp/vhd.XXXXXX";
                if (!mkdtemp(dir)) throw Discard("no scratch directory");
                std::string fn = std::string(dir) + "/signal.txt";
                c.text += "s" + std::to_string(w) + ".dumpFile\n";
                c.commit();
                sg[w].dumpFile(fn);
                std::ifstream in(fn);
                double a, b, d;
                size_t j = 0;
                std::vector<MS> got;
                while (in >> a >> b >> d) got.push_back({a, b, d});
                in.close();
                unlink(fn.c_str());
                rmdir(dir);
                for (auto &l : got) {
                    a = l.t, b = l.v, d = l.d;
                    c.checks++;
                    if (j >= ms[w].s.size() || !near(a, ms[w].s[j].t, 1e-6) || !near(b, ms[w].s[j].v, 1e-6) || !near(d, ms[w].s[j].d, 1e-6)) fail("line " + std::to_string(j + 1) + " of the file is " + num(a) + " " + num(b) + " " + num(d) + ", the signal is " + showM(ms[w]));
                    j++;
                }
                if (j != ms[w].s.size()) fail("the file has " + std::to_string(j) + " samples of " + std::to_string(ms[w].s.size()));
                break;
            }
            case 10: {  // one sample; values at the bound removed from the end
                double t = timeOf(tm, k[w]), v = genVal(g, vm).v, M = Signal::get_BigM();
                Signal o(t, v, 1);
                MSig x;
                x.append(t, v, 0, prev);
                same(c, "Signal(" + num(t) + ", " + num(v) + ", 1)", o, x);
                Signal r = sg[w];
                MSig y = ms[w];
                int add = (int)g.below(4);
                double e = y.e;
                for (int i = 0; i < add; i++) {
                    double z = g.chance(1, 3) ? 1 : g.chance(1, 2) ? M : -M;
                    e += 1;
                    bool slope = g.chance(1, 4);
                    r.push_back(Sample(e, slope ? 2 : z, slope ? z : 0));
                    y.s.push_back({e, slope ? 2 : z, slope ? z : 0});
                }
                c.text += "s" + std::to_string(w) + " with " + std::to_string(add) + " more samples, removeInf: " + showM(y) + "\n";
                c.commit();
                r.removeInf();
                while (!y.s.empty() && (std::fabs(y.s.back().v) == M || std::fabs(y.s.back().d) == M)) y.s.pop_back();
                same(c, "after removeInf", r, y);
                break;
            }
            default: {  // samples as lines
                Sample a(g.sint(8) * 0.5, genVal(g, vm).v, g.sint(6) * 0.5), b(g.sint(8) * 0.5, genVal(g, vm).v, g.sint(6) * 0.5);
                double t = g.sint(20) * 0.25;
                c.text += "samples (" + num(a.time) + ", " + num(a.value) + ", " + num(a.derivative) + ") (" + num(b.time) + ", " + num(b.value) + ", " + num(b.derivative) + ") at " + num(t) + "\n";
                c.commit();
                c.checks += 2;
                double e = a.value + a.derivative * (t - a.time);
                if (!near(a.valueAt(t), e, 1e-9)) fail("valueAt gives " + num(a.valueAt(t)) + ", expected " + num(e));
                if (a.derivative != b.derivative) {
                    double x = a.timeIntersect(b);
                    if (!near(a.value + a.derivative * (x - a.time), b.value + b.derivative * (x - b.time), 1e-6)) fail("timeIntersect gives " + num(x) + ", where the lines have values " + num(a.valueAt(x)) + " and " + num(b.valueAt(x)));
                    if (!near(x, b.timeIntersect(a), 1e-6)) fail("timeIntersect depends on the order: " + num(x) + ", " + num(b.timeIntersect(a)));
                }
            }
        }
        for (int j = 0; j < 2; j++) same(c, "s" + std::to_string(j), sg[j], ms[j]);
    }
    // static settings
    static const char *sn[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME"}, *in[] = {"LINEAR", "PREVIOUS"}, *wrong[] = {"", "space", "LINEAR ", "BOOLEAN", "NEXT"};
    std::string a = sn[g.below(3)], b = in[g.below(2)], w = wrong[g.below(5)];
    double M = 1 + g.below(100000) / 7.0;
    Signal::set_semantics(a);
    Signal::set_interpol(b);
    Signal::set_BigM(M);
    int thrown = 0;
    try {
        Signal::set_semantics(w);
    } catch (const std::invalid_argument &) {
        thrown++;
    }
    try {
        Signal::set_interpol(w);
    } catch (const std::invalid_argument &) {
        thrown++;
    }
    c.checks += 4;
    if (thrown != 2) fail("\"" + w + "\" was accepted as a mode");
    if (Signal::get_semantics() != a || Signal::get_interpol() != b || Signal::get_BigM() != M) fail("static settings are " + Signal::get_semantics() + " " + Signal::get_interpol() + " " + num(Signal::get_BigM()) + ", set to " + a + " " + b + " " + num(M));
    c.nontrivial = ms[0].s.size() + ms[1].s.size() > 2;
}
static Reg r21({"C21", c21, 150000, 1200000, "random sequences of appends, array constructions, appended signals, copies and ends; non-trivial: more than two samples", false});
