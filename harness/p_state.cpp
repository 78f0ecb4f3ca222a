// C09 independence of the history, C10 isolation of drivers and monitors, C14 samples
#include <unistd.h>

#include <fstream>

#include "sut.h"
using namespace STLRom;

struct Quiet2 {
    std::ostringstream o;
    std::streambuf *a, *b;
    Quiet2() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
    ~Quiet2() {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
    }
};
static std::string numText(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.12f", v);
    std::string s = b;
    while (s.back() == '0') s.pop_back();
    if (s.back() == '.') s.pop_back();
    return s == "-0" ? "0" : s;
}
// the library keeps the modes of the last evaluation in statics of Signal; they must not matter
static void statics(const Mode &m, bool opposite) {
    Signal::semantics = opposite ? (m.sem == 0 ? Semantics::RIGHT_TIME : Semantics::SPACE) : m.sem == 0 ? Semantics::SPACE : m.sem == 1 ? Semantics::LEFT_TIME : Semantics::RIGHT_TIME;
    Signal::interpol = m.previous != opposite ? Interpol::PREVIOUS : Interpol::LINEAR;
}
struct MState {  // what an object should be
    int nsig = 1;
    std::vector<std::pair<std::string, NodeP>> fs;
    std::map<std::string, double> par;
    Rows data;
    Mode m;
    std::string mon;  // formula of a monitor, "" for a driver
    double ws = 0, we = 0;  // evaluation window of a monitor
    std::string spec() const {
        std::string s = "signal ";
        for (int i = 0; i < nsig; i++) s += std::string(i ? ", " : "") + sigName(i);
        s += "\n";
        for (auto &p : par) s += "param " + p.first + " = " + numText(p.second) + "\n";
        for (auto &f : fs) s += f.first + " := " + printF(f.second) + "\n";
        return s;
    }
};
struct Obj {
    MState st;
    std::unique_ptr<STLDriver> d;
    std::unique_ptr<STLMonitor> m;
};
static bool boundsOk(const NodeP &n, const Env &e) {
    if (!n) return true;
    if (n->k >= Node::EV) {
        double a = e.bound(n->a), b = e.bound(n->b);
        if (a < 0 || b < a) return false;
    }
    return boundsOk(n->l, e) && boundsOk(n->r, e);
}
static const char *semName(int s) {
    static const char *sn[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME"};
    return sn[s];
}
static std::unique_ptr<STLDriver> fresh(const MState &s) {
    std::unique_ptr<STLDriver> d(new STLDriver);
    Quiet2 q;
    if (!d->parse_string(s.spec())) fail("valid specification rejected: " + q.o.str() + "\n" + s.spec());
    bool fit = true;
    for (auto &r : s.data) fit = fit && (int)r.size() == s.nsig + 1;
    if (!fit) d->data = s.data;  // some signals were declared after samples had been added
    else
        for (auto &r : s.data) d->add_sample(r);
    d->set_semantics(semName(s.m.sem));
    d->set_interpol(s.m.previous ? "PREVIOUS" : "LINEAR");
    return d;
}
static std::string trip(const std::vector<double> &v) {
    if (v.empty()) return "(none)";
    std::string s = "(";
    for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i]);
    return s + ")";
}
static bool sameV(const std::vector<double> &a, const std::vector<double> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!near(a[i], b[i], 1e-9)) return false;
    return true;
}

struct Machine {
    Gen &g;
    Case &c;
    std::vector<Obj> pool;
    int tmode, vmode;
    long next = 0;
    int evals = 0, changes = 0;
    GenCfg gc;
    Machine(Gen &g_, Case &c_) : g(g_), c(c_) {}
    void say(const std::string &s) {
        c.text += s + "\n";
        c.commit();
    }
    std::string nm(size_t i) { return (pool[i].d ? "driver" : "monitor") + std::to_string(i); }
    NodeP formula(MState &s) {
        Env env;
        env.par = s.par;
        gc.nsig = s.nsig;
        gc.params = true;
        gc.tmode = tmode;
        gc.vmode = vmode;
        gc.maxb = 3;
        gc.env = &env;
        NodeP f = genF(g, gc, 1 + (int)g.below(3), (int)g.below(3));
        if (!s.fs.empty() && g.chance(1, 2)) {  // refer to an earlier formula
            auto &p = s.fs[g.below((uint32_t)s.fs.size())];
            auto r = std::make_shared<Node>(*p.second);
            r->ref = p.first;
            auto n = std::make_shared<Node>();
            n->k = (Node::K)(1 + g.below(7));
            n->l = r;
            n->a.num = Num("0");
            n->b.num = genTime(g, tmode, 3);
            if (n->k == Node::AND || n->k == Node::OR || n->k == Node::IMP || n->k == Node::UNTIL) {
                n->r = f;
                if (g.chance(1, 2)) std::swap(n->l, n->r);
            } else if (g.chance(1, 2)) {
                auto q = std::make_shared<Node>();
                q->k = Node::AND;
                q->l = f;
                q->r = n;
                n = q;
            }
            if (!(n->k >= Node::EV)) n->a = n->b = Bnd();
            f = n;
        }
        s.par = env.par;
        return f;
    }
    std::vector<double> row(const MState &s) {
        long k;
        if (s.data.empty())
            k = g.chance(1, 2) ? 0 : (long)g.below(6);
        else
            k = lround(s.data.back()[0] / unitOf(tmode)) + 1 + (long)g.below(tmode == 0 ? 3 : tmode == 1 ? 8 : tmode == 2 ? 20 : 2000);
        std::vector<double> r = {timeOf(tmode, k)};
        for (int i = 0; i < s.nsig; i++) r.push_back(genVal(g, vmode).v);
        return r;
    }
    double time() {
        int span = tmode == 0 ? 6 : tmode == 1 ? 24 : tmode == 2 ? 60 : 6000;
        return g.chance(1, 2) ? 0 : timeOf(tmode, (long)g.below(span));
    }
    // the value of the object equals the value of a new object in the same state
    void evaluate(size_t i) {
        Obj &o = pool[i];
        if (o.m && o.st.mon.empty()) {  // no formula: the last value, initially 0
            say(nm(i) + ".eval_rob(), no formula");
            double v = g.chance(1, 2) ? o.m->eval_rob(time()) : o.m->eval_rob();
            c.checks++;
            if (v != 0 || o.m->formula || !o.m->get_signal().empty()) fail("a monitor without formula gives " + num(v));
            return;
        }
        if (o.st.data.empty() && o.m) return;
        evals++;
        auto f = fresh(o.st);
        if (g.chance(1, 4)) statics(o.st.m, true);
        if (o.d) {
            std::string name = "nosuch";
            if (!o.st.fs.empty() && !g.chance(1, 30)) name = o.st.fs[g.below((uint32_t)o.st.fs.size())].first;
            bool known = name != "nosuch";
            double t = time();
            bool dflt = t == 0 && g.chance(1, 2);
            say(nm(i) + ".get_online_rob(" + name + (dflt ? "" : ", " + num(t)) + ")");
            std::vector<double> got, want;
            {
                Quiet2 q;
                bool miss = false, miss2 = false;
                try {
                    got = dflt ? o.d->get_online_rob(name) : o.d->get_online_rob(name, t);
                } catch (const std::out_of_range &) {
                    miss = true;
                }
                statics(o.st.m, false);
                try {
                    want = f->get_online_rob(name, t);
                } catch (const std::out_of_range &) {
                    miss2 = true;
                }
                if (miss || miss2) {  // samples without a column for a later signal
                    c.checks++;
                    c.label("missing-column");
                    if (miss != miss2) fail(std::string("get_online_rob ") + (miss ? "misses a column" : "gives a value") + ", a new driver in the same state " + (miss2 ? "misses a column" : "gives a value"));
                    return;
                }
            }
            c.checks++;
            if (o.st.data.empty() || !known ? !got.empty() : got.size() != 3) fail("result has " + std::to_string(got.size()) + " values");
            if (!sameV(got, want)) fail("get_online_rob gives " + trip(got) + ", a new driver in the same state gives " + trip(want) + "\nstate:\n" + o.st.spec() + modeName(o.st.m) + "\n" + printRows(o.st.data));
        } else {
            double s = time(), e = g.chance(1, 2) ? s : s + timeOf(tmode, (long)g.below(tmode == 3 ? 3000 : 12));
            int way = g.pick({3, 2, 2, 2});
            if (way == 3) s = o.st.ws, e = o.st.we;
            if (way == 1) e = s;
            say(nm(i) + (way == 3 ? ".eval_rob(), window " : way == 2 ? ".set_eval_time, eval_rob() " : ".eval_rob") + "(" + num(s) + ", " + num(e) + ")");
            STLMonitor fm;
            {
                Quiet2 q;
                fm = f->get_monitor(o.st.mon);
            }
            double r, w;
            bool miss = false, miss2 = false;
            if (way == 2) o.st.ws = s, o.st.we = e;
            try {
                if (way == 1)
                    r = o.m->eval_rob(s);
                else if (way == 3)
                    r = o.m->eval_rob();
                else if (way == 2) {
                    o.m->set_eval_time(s, e);
                    r = o.m->eval_rob();
                } else
                    r = o.m->eval_rob(s, e);
            } catch (const std::out_of_range &) {
                miss = true;
            }
            std::vector<double> got = {r, o.m->get_rob(), o.m->get_lower_rob(), o.m->get_upper_rob()};
            statics(o.st.m, false);
            try {
                w = fm.eval_rob(s, e);
            } catch (const std::out_of_range &) {
                miss2 = true;
            }
            if (miss || miss2) {
                c.checks++;
                c.label("missing-column");
                if (miss != miss2) fail(std::string("eval_rob ") + (miss ? "misses a column" : "gives a value") + ", a new monitor in the same state " + (miss2 ? "misses a column" : "gives a value"));
                return;
            }
            std::vector<double> want = {w, w, fm.get_lower_rob(), fm.get_upper_rob()};
            c.checks++;
            if (!sameV(got, want)) fail("eval_rob gives " + trip(got) + ", a new monitor in the same state gives " + trip(want) + "\nstate:\n" + o.st.spec() + modeName(o.st.m) + "\n" + printRows(o.st.data));
            Signal a = o.m->get_signal(), b = fm.get_signal();
            c.checks++;
            bool same = a.size() == b.size() && near(a.beginTime, b.beginTime, 1e-9) && near(a.endTime, b.endTime, 1e-9);
            for (size_t k = 0; same && k < a.size(); k++) same = near(a[k].time, b[k].time, 1e-9) && near(a[k].value, b[k].value, 1e-9) && near(a[k].derivative, b[k].derivative, 1e-9);
            if (!same) fail("get_signal differs from the signal of a new monitor in the same state");
        }
    }
    // everything that can be read back
    void inspect(size_t i) {
        Obj &o = pool[i];
        c.checks++;
        if (o.d) {
            if (o.d->data != o.st.data) fail(nm(i) + ": data differ:\n" + printRows(o.d->data) + "expected\n" + printRows(o.st.data));
            for (auto &p : o.st.par)
                if (o.d->get_param(p.first) != p.second) fail(nm(i) + ": parameter " + p.first + " is " + num(o.d->get_param(p.first)) + ", expected " + num(p.second));
            if (o.d->get_param("nosuch") != 0) fail("unknown parameter is not 0");
            if (o.d->get_semantics() != semName(o.st.m.sem)) fail(nm(i) + ": semantics " + o.d->get_semantics());
            if (o.d->get_interpol() != (o.st.m.previous ? "PREVIOUS" : "LINEAR")) fail(nm(i) + ": interpolation " + o.d->get_interpol());
            std::string sn;
            for (int k = 0; k < o.st.nsig; k++) sn += std::string(k ? " " : "") + sigName(k);
            if (o.d->get_signals_names() != sn) fail(nm(i) + ": signals '" + o.d->get_signals_names() + "', expected '" + sn + "'");
        } else {
            if (o.m->data != o.st.data) fail(nm(i) + ": data differ:\n" + printRows(o.m->data) + "expected\n" + printRows(o.st.data));
            for (auto &p : o.st.par)
                if (o.m->get_param(p.first) != p.second) fail(nm(i) + ": parameter " + p.first + " is " + num(o.m->get_param(p.first)) + ", expected " + num(p.second));
            if (o.m->get_semantics() != semName(o.st.m.sem)) fail(nm(i) + ": semantics " + o.m->get_semantics());
            if (o.m->get_interpol() != (o.st.m.previous ? "PREVIOUS" : "LINEAR")) fail(nm(i) + ": interpolation " + o.m->get_interpol());
            std::string sn;
            for (int k = 0; k < o.st.nsig; k++) sn += std::string(k ? " " : "") + sigName(k);
            if (o.m->get_signal_names() != sn) fail(nm(i) + ": signals '" + o.m->get_signal_names() + "', expected '" + sn + "'");
        }
    }
    void newDriver() {
        Obj o;
        o.st.nsig = g.chance(1, 30) ? 4 + (int)g.below(9) : 1 + (int)g.below(3);
        int nf = 1 + (int)g.below(2);
        for (int i = 0; i < nf; i++) o.st.fs.push_back({"phi" + std::to_string(i), formula(o.st)});
        say("driver" + std::to_string(pool.size()) + ":\n" + o.st.spec());
        if (g.chance(1, 5)) {  // a driver made with data
            int n = (int)g.below(4);
            for (int k = 0; k < n; k++) o.st.data.push_back(row(o.st));
            say("made with the samples\n" + printRows(o.st.data));
            o.d.reset(new STLDriver(o.st.data));
            Quiet2 q;
            if (!o.d->parse_string(o.st.spec())) fail("valid specification rejected: " + q.o.str());
        } else
            o.d = fresh(o.st);
        pool.push_back(std::move(o));
    }
    // other samples in place of the current ones
    void replaceData(size_t i) {
        Obj &o = pool[i];
        Rows d = o.st.data;
        if (d.empty()) return;
        bool times = g.chance(1, 2);
        for (auto &r : d)
            for (size_t j = 1; j < r.size(); j++) r[j] = genVal(g, vmode).v;
        if (times)
            for (size_t k = 1; k < d.size(); k++) d[k][0] = timeOf(tmode, lround(d[k - 1][0] / unitOf(tmode)) + 1 + (long)g.below(4));
        if (g.chance(1, 4)) d.resize(1 + g.below((uint32_t)d.size()));
        bool file = o.d && g.chance(1, 2);
        say(nm(i) + (file ? " reads a trace file\n" : " gets the data\n") + printRows(d));
        if (file) {
            char fn[] = "/tmp/vhs.XXXXXX";
            int fd = mkstemp(fn);
            if (fd < 0) throw Discard("mkstemp");
            close(fd);
            {
                std::ofstream f(fn);
                f.precision(17);
                for (auto &r : d) {
                    for (auto v : r) f << v << " ";
                    f << "\n";
                }
            }
            bool ok = o.d->read_trace_file(fn);
            unlink(fn);
            if (!ok) fail("trace file not read");
        } else if (o.d)
            o.d->data = d;
        else
            o.m->data = d;
        o.st.data = d;
        changes++;
        c.label("replace-data");
    }
    void clear(size_t i) {
        Obj &o = pool[i];
        if (!o.d) return;
        say(nm(i) + ".clear()");
        o.d->clear();
        o.st.fs.clear();
        o.st.par.clear();
        changes++;
        c.label("clear");
        if (g.chance(2, 3)) {
            std::string nm0 = "phi" + std::to_string(g.below(2));
            o.st.fs.push_back({nm0, formula(o.st)});
            std::string t;
            for (auto &p : o.st.par) t += "param " + p.first + " = " + numText(p.second) + "\n";
            t += nm0 + " := " + printF(o.st.fs[0].second) + "\n";
            say(nm(i) + " parses\n" + t);
            Quiet2 q;
            if (!o.d->parse_string(t)) fail("valid input rejected after clear(): " + q.o.str());
        }
    }
    // things that only look at the object
    void look(size_t i) {
        Obj &o = pool[i];
        Quiet2 q;
        std::ostringstream os;
        if (o.d) {
            o.d->print(os);
            o.d->print_trace(os);
            if (g.chance(1, 2)) {
                say(nm(i) + " run_tests() without tests");
                o.d->run_tests();
            }
        } else {
            o.m->display_formula();
            o.m->display_signal_names();
        }
        c.label("look");
    }
    void addSample(size_t i) {
        Obj &o = pool[i];
        int n = 1 + (int)g.below(3);
        if (g.chance(1, 60)) n = 70 + (int)g.below(60);
        for (int k = 0; k < n; k++) {
            auto r = row(o.st);
            say(nm(i) + ".add_sample " + trip(r));
            if (o.d)
                o.d->add_sample(r);
            else
                o.m->add_sample(r);
            o.st.data.push_back(r);
        }
        changes++;
    }
    void badSample(size_t i) {
        Obj &o = pool[i];
        auto r = row(o.st);
        int k = g.pick({2, 2, 3, 2, 1, 1});
        if (k == 0) r.push_back(1);
        if (k == 1) r.pop_back();
        if (k == 2) {
            if (o.st.data.empty()) return;
            r[0] = o.st.data.back()[0];
        }
        if (k == 3) {
            if (o.st.data.empty()) return;
            r[0] = o.st.data[g.below((uint32_t)o.st.data.size())][0] - (g.chance(1, 2) ? 0 : 0.5);
        }
        if (k == 4) r.clear();
        if (k == 5) {
            if (o.st.data.empty()) return;
            r[0] = std::nan("");
        }
        say(nm(i) + ".add_sample " + trip(r) + " (invalid)");
        bool thrown = false;
        try {
            if (o.d)
                o.d->add_sample(r);
            else
                o.m->add_sample(r);
        } catch (const std::invalid_argument &) {
            thrown = true;
        }
        c.checks++;
        c.label("invalid-sample");
        if (!thrown) fail("invalid sample " + trip(r) + " accepted");
    }
    void setParam(size_t i) {
        Obj &o = pool[i];
        if (g.chance(1, 8)) {
            say(nm(i) + ".set_param(nosuch, 1)");
            bool thrown = false;
            try {
                if (o.d)
                    o.d->set_param("nosuch", 1);
                else
                    o.m->set_param("nosuch", 1);
            } catch (const std::invalid_argument &) {
                thrown = true;
            }
            if (o.m && !thrown) fail("set_param of an unknown parameter accepted");
            return;
        }
        if (o.st.par.empty()) return;
        auto it = o.st.par.begin();
        std::advance(it, g.below((uint32_t)o.st.par.size()));
        Env e;
        e.par = o.st.par;
        double v = g.chance(1, 2) ? genVal(g, vmode).v : genTime(g, tmode, 3).v;
        e.par[it->first] = v;
        for (auto &f : o.st.fs)
            if (!boundsOk(f.second, e)) return;
        say(nm(i) + ".set_param(" + it->first + ", " + num(v) + ")");
        if (o.d)
            o.d->set_param(it->first, v);
        else
            o.m->set_param(it->first, v);
        it->second = v;
        changes++;
        c.label("set-param");
    }
    void setMode_(size_t i) {
        Obj &o = pool[i];
        if (g.chance(1, 6)) {
            say(nm(i) + ": invalid semantics and interpolation");
            int n = 0;
            for (int k = 0; k < 2; k++) try {
                    Quiet2 q;
                    if (k == 0) o.d ? o.d->set_semantics("TIME") : o.m->set_semantics("TIME");
                    if (k == 1) o.d ? o.d->set_interpol("CUBIC") : o.m->set_interpol("CUBIC");
                } catch (const std::invalid_argument &) {
                    n++;
                }
            c.checks++;
            if (n != 2) fail("unknown semantics or interpolation accepted");
            return;
        }
        Mode m;
        m.sem = g.pick({3, 1, 1});
        m.previous = g.chance(1, 2);
        say(nm(i) + " " + modeName(m));
        Quiet2 q;
        if (o.d) {
            o.d->set_semantics(semName(m.sem));
            o.d->set_interpol(m.previous ? "PREVIOUS" : "LINEAR");
        } else {
            o.m->set_semantics(semName(m.sem));
            o.m->set_interpol(m.previous ? "PREVIOUS" : "LINEAR");
        }
        o.st.m = m;
        changes++;
    }
    void parseMore(size_t i) {
        Obj &o = pool[i];
        if (!o.d || o.st.fs.size() > 4) return;
        if (g.chance(1, 4)) {
            static const char *bad[] = {"zz := x[t] >\n", "zz := nosuch and x[t] > 0\n", "phi0 := x[t] > 0\n", "zz := x[t] > undeclared\n", "param = 3\n", "zz := alw_[0, x[t] > 0\n", "))\n"};
            std::string t = bad[g.below(7)];
            bool has0 = false;
            for (auto &f : o.st.fs) has0 = has0 || f.first == "phi0";
            if (t[0] == 'p' && t[1] == 'h' && !has0) return;
            say(nm(i) + " parses " + t);
            Quiet2 q;
            if (o.d->parse_string(t)) fail("invalid input accepted: " + t);
            c.label("rejected-parse");
            return;
        }
        MState &s = o.st;
        MState before = s;
        NodeP f = formula(s);
        int num = (int)s.fs.size();
        for (auto &p : s.fs)
            if (p.first == "phi" + std::to_string(num)) num++;
        std::string name = "phi" + std::to_string(num), t;
        for (auto &p : s.par)
            if (!before.par.count(p.first)) t += "param " + p.first + " = " + numText(p.second) + "\n";
        t += name + " := " + printF(f) + "\n";
        s.fs.push_back({name, f});
        say(nm(i) + " parses\n" + t);
        Quiet2 q;
        if (!o.d->parse_string(t)) fail("valid input rejected: " + q.o.str());
        changes++;
        c.label("parse-more");
    }
    void moreSignals(size_t i) {
        Obj &o = pool[i];
        if (!o.d || o.st.nsig > 10) return;
        int n = 1 + (int)g.below(2);
        std::string t = "signal ";
        for (int k = 0; k < n; k++) t += std::string(k ? ", " : "") + sigName(o.st.nsig + k);
        say(nm(i) + " parses " + t);
        Quiet2 q;
        if (!o.d->parse_string(t + "\n")) fail("valid declaration rejected: " + q.o.str());
        o.st.nsig += n;
        changes++;
        c.label("signals-declared-later");
        if (g.chance(1, 3)) {
            say(nm(i) + ".data.clear()");
            o.d->data.clear();
            o.st.data.clear();
        }
    }
    void getMonitor(size_t i) {
        if (!pool[i].d || pool.size() > 6) return;
        if (g.chance(1, 12)) {
            bool dflt = g.chance(1, 2);
            say("monitor" + std::to_string(pool.size()) + (dflt ? " = STLMonitor()" : " = " + nm(i) + ".get_monitor(nosuch)"));
            Obj o;
            o.st.nsig = 0;
            Quiet2 q;
            o.m.reset(dflt ? new STLMonitor : new STLMonitor(pool[i].d->get_monitor("nosuch")));
            pool.push_back(std::move(o));
            c.label("monitor-without-formula");
            return;
        }
        if (pool[i].st.fs.empty()) return;
        Obj o;
        o.st = pool[i].st;
        o.st.mon = o.st.fs[g.below((uint32_t)o.st.fs.size())].first;
        say("monitor" + std::to_string(pool.size()) + " = " + nm(i) + ".get_monitor(" + o.st.mon + ")");
        o.m.reset(new STLMonitor(pool[i].d->get_monitor(o.st.mon)));
        pool.push_back(std::move(o));
    }
    void copy(size_t i) {
        int k = (int)g.below(5);
        Obj o;
        o.st = pool[i].st;
        bool isd = (bool)pool[i].d;
        if (k == 0) {
            if (pool.size() > 6) return;
            say("copy " + nm(i) + " to object " + std::to_string(pool.size()));
            if (isd)
                o.d.reset(new STLDriver(*pool[i].d));
            else
                o.m.reset(new STLMonitor(*pool[i].m));
            pool.push_back(std::move(o));
        } else if (k == 1) {
            say("move " + nm(i) + " into a new object in its place");
            if (isd)
                o.d.reset(new STLDriver(std::move(*pool[i].d)));
            else
                o.m.reset(new STLMonitor(std::move(*pool[i].m)));
            pool[i] = std::move(o);
        } else {  // assignment to another object of the same kind
            size_t j = g.below((uint32_t)pool.size());
            if ((bool)pool[j].d != isd) return;
            if (k == 2 || i == j) {
                say(nm(j) + " = " + nm(i));
                if (isd)
                    *pool[j].d = *pool[i].d;
                else
                    *pool[j].m = *pool[i].m;
                pool[j].st = pool[i].st;
            } else if (k == 3) {
                say(nm(j) + " = a copy of " + nm(i) + ", moved");
                if (isd)
                    *pool[j].d = STLDriver(*pool[i].d);
                else
                    *pool[j].m = STLMonitor(*pool[i].m);
                pool[j].st = pool[i].st;
            } else {
                say(nm(j) + " = move of " + nm(i) + ", which is then destroyed");
                if (isd)
                    *pool[j].d = std::move(*pool[i].d);
                else
                    *pool[j].m = std::move(*pool[i].m);
                pool[j].st = pool[i].st;
                pool.erase(pool.begin() + i);
            }
        }
        changes++;
        c.label("copy");
    }
    void destroy(size_t i) {
        if (pool.size() < 2) return;
        say("destroy " + nm(i));
        pool.erase(pool.begin() + i);
        c.label("destroy");
    }
    void run(bool multi) {
        tmode = (int)g.below(4);
        vmode = (int)g.below(4);
        newDriver();
        addSample(0);
        if (multi && g.chance(1, 2)) newDriver();
        getMonitor(0);
        if (pool.size() == 3 || g.chance(1, 2)) getMonitor(0);
        int n = 3 + (int)g.below(multi ? 20 : 14);
        for (int k = 0; k < n; k++) {
            size_t i = g.below((uint32_t)pool.size());
            switch (g.pick({16, 14, 4, 4, 4, 2, 2, 2, multi ? 10 : 0, multi ? 2 : 0, 2, 2, 2, 2, 1})) {
                case 0: evaluate(i); break;
                case 1: addSample(i); break;
                case 2: badSample(i); break;
                case 3: setParam(i); break;
                case 4: setMode_(i); break;
                case 5: parseMore(i); break;
                case 6: getMonitor(i); break;
                case 7:
                    if (pool[i].m) {
                        say(nm(i) + ".reset_signal_data()");
                        pool[i].m->reset_signal_data();
                        pool[i].st.data.clear();
                        c.label("reset");
                        changes++;
                    }
                    break;
                case 8: copy(i); break;
                case 9: destroy(i); break;
                case 10:
                    if (multi && pool.size() < 6) newDriver();
                    break;
                case 11: replaceData(i); break;
                case 12:
                    if (g.chance(1, 2)) clear(i);
                    break;
                case 13: look(i); break;
                case 14: moreSignals(i); break;
            }
        }
        for (size_t i = 0; i < pool.size(); i++) {
            inspect(i);
            evaluate(i);
        }
    }
};
static void c09(Gen &g, Case &c) {
    resetGlobals();
    Machine m(g, c);
    m.run(false);
    c.nontrivial = m.evals >= 3 && m.changes >= 2;
}
static Reg r09({"C09", c09, 60000, 480000, "random history of one driver and its monitors; non-trivial: at least three evaluations and two changes of state", false});
static void c10(Gen &g, Case &c) {
    resetGlobals();
    Machine m(g, c);
    m.run(true);
    c.nontrivial = m.evals >= 3 && m.changes >= 3 && m.pool.size() >= 2;
}
static Reg r10({"C10", c10, 50000, 400000, "random history of several drivers and monitors with copies, moves and destruction; non-trivial: three evaluations, three changes of state, two objects alive at the end", false});
