// Executes the operations of C16 (one per line) through the C++ library and writes one result per line.
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "signal.h"
#include "stl_driver.h"
#include "stl_monitor.h"
#include "tools.h"
using namespace STLRom;
typedef std::string S;
typedef std::vector<S> A;

static S esc(const S &s) {
    S o;
    for (char c : s) {
        if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else o += c;
    }
    return o;
}
static S unesc(const S &s) {
    S o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '\\') { o += s[i]; continue; }
        char c = s[++i];
        o += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c;
    }
    return o;
}
static S f(double x) {
    if (std::isnan(x)) return "nan";
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
static S f(const std::vector<double> &v) {
    S o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + f(v[i]);
    return o + "]";
}
static S f(const trace_data &v) {
    S o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + f(v[i]);
    return o + "]";
}
static S f(const Sample &s) { return "<" + f(s.time) + " " + f(s.value) + " " + f(s.derivative) + ">"; }
static S f(const std::deque<Sample> &v) {
    S o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + f(v[i]);
    return o + "]";
}
static double d(const S &s) { return strtod(s.c_str(), nullptr); }
static trace_data rows(const S &s) {
    trace_data o;
    std::istringstream i(s);
    S l;
    while (std::getline(i, l, ';')) {
        std::istringstream j(l);
        std::vector<double> v;
        S t;
        while (j >> t) v.push_back(d(t));
        o.push_back(v);
    }
    return o;
}
static std::vector<double> row(const S &s) {
    trace_data t = rows(s);
    return t.empty() ? std::vector<double>() : t[0];
}

struct Env {
    std::map<S, std::unique_ptr<STLDriver>> D;
    std::map<S, std::unique_ptr<STLMonitor>> M;
    std::map<S, std::unique_ptr<Signal>> G;
    std::map<S, std::unique_ptr<Sample>> P;
    std::map<S, std::unique_ptr<Point>> Q;
};
template <class T>
static T &at(std::map<S, std::unique_ptr<T>> &m, const S &k) {
    if (!m[k]) throw std::logic_error("empty slot " + k);
    return *m[k];
}
#define DRV at(e.D, a[1])
#define MON at(e.M, a[1])
#define SIG at(e.G, a[1])
#define SMP at(e.P, a[1])
#define PNT at(e.Q, a[1])

static S step(Env &e, const A &a) {
    const S &o = a[0];
    if (o == "gc") return "";
    if (o == "bad") return "TypeError";
    if (o == "rand") {
        int m = atoi(a[1].c_str()), n = atoi(a[2].c_str());
        trace_data t = rand_trace_data(m, n);
        bool ok = (int)t.size() == m;
        for (int i = 0; ok && i < m; i++) {
            ok = (int)t[i].size() == n + 1 && std::fabs(t[i][0] - i * 0.1) < 1e-9;
            for (int j = 1; ok && j <= n; j++) ok = t[i][j] >= 0 && t[i][j] <= 1;
        }
        return ok ? "ok" : "bad";
    }
    if (o == "d.new" || o == "d.sub") { e.D[a[1]].reset(new STLDriver()); return ""; }
    if (o == "d.del") { e.D.erase(a[1]); return ""; }
    if (o == "d.del2") return "";
    if (o == "d.copy") { e.D[a[1]].reset(new STLDriver(at(e.D, a[2]))); return ""; }
    if (o == "d.parse") return DRV.parse_string(a[2]) ? "True" : "False";
    if (o == "d.parsefile") {
        if (a.size() > 3) std::ofstream(a[2], std::ios::binary) << a[3];
        return DRV.parse_file(a[2]) ? "True" : "False";
    }
    if (o == "d.add") { DRV.add_sample(row(a[2])); return ""; }
    if (o == "d.data=") { DRV.data = rows(a[2]); return ""; }
    if (o == "d.data" || o == "d.datamut") return f(DRV.data);
    if (o == "d.names") return DRV.get_signals_names();
    if (o == "d.sem=") { DRV.set_semantics(a[2]); return ""; }
    if (o == "d.sem") return DRV.get_semantics();
    if (o == "d.interp=") { DRV.set_interpol(a[2]); return ""; }
    if (o == "d.interp") return DRV.get_interpol();
    if (o == "d.rob0") return f(DRV.get_online_rob("phi", 0.));
    if (o == "d.rob1" || o == "d.rob1k") return f(DRV.get_online_rob(a[2], 0.));
    if (o == "d.rob2" || o == "d.rob2k") return f(DRV.get_online_rob(a[2], d(a[3])));
    if (o == "d.robt") return f(DRV.get_online_rob("phi", d(a[2])));
    if (o == "d.param=") { DRV.set_param(a[2], d(a[3])); return ""; }
    if (o == "d.param") return f(DRV.get_param(a[2]));
    if (o == "d.disp") { DRV.disp(); return ""; }
    if (o == "d.mon") { e.M[a[3]].reset(new STLMonitor(DRV.get_monitor(a[2]))); return ""; }
    if (o == "d.print") {
        STLMonitor m = DRV.get_monitor("phi");
        std::ostringstream s;
        s << "Monitor lower rob:" << m.lower_rob << std::endl;
        if (m.formula) m.formula->print(s);
        return s.str();
    }
    if (o == "m.new" || o == "m.sub") { e.M[a[1]].reset(new STLMonitor()); return ""; }
    if (o == "m.del") { e.M.erase(a[1]); return ""; }
    if (o == "m.del2") return "";
    if (o == "m.copy") { e.M[a[1]].reset(new STLMonitor(at(e.M, a[2]))); return ""; }
    if (o == "m.repr") { std::ostringstream s; s << MON; return s.str(); }
    if (o == "m.add") { MON.add_sample(row(a[2])); return ""; }
    if (o == "m.low") return f(MON.get_lower_rob());
    if (o == "m.up") return f(MON.get_upper_rob());
    if (o == "m.sem=") { MON.set_semantics(a[2]); return ""; }
    if (o == "m.sem") return MON.get_semantics();
    if (o == "m.interp=") { MON.set_interpol(a[2]); return ""; }
    if (o == "m.interp") return MON.get_interpol();
    if (o == "m.eval0") return f(MON.eval_rob());
    if (o == "m.eval1") return f(MON.eval_rob(d(a[2])));
    if (o == "m.eval2") return f(MON.eval_rob(d(a[2]), d(a[3])));
    if (o == "m.time=") { MON.set_eval_time(d(a[2]), d(a[3])); return ""; }
    if (o == "m.param=") { MON.set_param(a[2], d(a[3])); return ""; }
    if (o == "m.param") return f(MON.get_param(a[2]));
    if (o == "m.signal") { e.G[a[2]].reset(new Signal(MON.get_signal())); return ""; }
    if (o == "m.disp") { MON.display_formula(); return ""; }
    if (o == "m.get") return f(a[2] == "rob" ? MON.rob : a[2] == "lower_rob" ? MON.lower_rob : a[2] == "upper_rob" ? MON.upper_rob : a[2] == "start_time" ? MON.start_time : MON.end_time);
    if (o == "m.set") { (a[2] == "rob" ? MON.rob : a[2] == "lower_rob" ? MON.lower_rob : a[2] == "upper_rob" ? MON.upper_rob : a[2] == "start_time" ? MON.start_time : MON.end_time) = d(a[3]); return ""; }
    if (o == "m.data" || o == "m.datamut") return f(MON.data);
    if (o == "m.data=") { MON.data = rows(a[2]); return ""; }
    if (o == "s.new" || o == "s.sub") { e.G[a[1]].reset(new Signal()); return ""; }
    if (o == "s.del") { e.G.erase(a[1]); return ""; }
    if (o == "s.copy") { e.G[a[1]].reset(new Signal(at(e.G, a[2]))); return ""; }
    if (o == "s.app2") { SIG.appendSample(d(a[2]), d(a[3])); return ""; }
    if (o == "s.app3") { SIG.appendSample(d(a[2]), d(a[3]), d(a[4])); return ""; }
    if (o == "s.not") { SIG.compute_not(at(e.G, a[2])); return ""; }
    if (o == "s.and") { Signal &x = at(e.G, a[2]), &y = at(e.G, a[3]); SIG.compute_and(x, y); return ""; }
    if (o == "s.or") { Signal &x = at(e.G, a[2]), &y = at(e.G, a[3]); SIG.compute_or(x, y); return ""; }
    if (o == "s.bool") { SIG.compute_boolean(at(e.G, a[2])); return ""; }
    if (o == "s.left") { SIG.compute_left_time_rob(at(e.G, a[2])); return ""; }
    if (o == "s.right") { SIG.compute_right_time_rob(at(e.G, a[2])); return ""; }
    if (o == "s.list" || o == "s.listmut") return f(SIG.getSamplesDeque());
    if (o == "s.begin") return f(SIG.beginTime);
    if (o == "s.end") return f(SIG.endTime);
    if (o == "s.begin=") { SIG.beginTime = d(a[2]); return ""; }
    if (o == "s.end=") { SIG.endTime = d(a[2]); return ""; }
    if (o == "S.sem=") { Signal::set_semantics(a[1]); return ""; }
    if (o == "S.sem") return Signal::get_semantics();
    if (o == "S.interp=") { Signal::set_interpol(a[1]); return ""; }
    if (o == "S.interp") return Signal::get_interpol();
    if (o == "S.big=") { Signal::set_BigM(d(a[1])); return ""; }
    if (o == "S.big") return f(Signal::get_BigM());
    if (o == "p.new") { e.P[a[1]].reset(new Sample(d(a[2]), d(a[3]), d(a[4]))); return ""; }
    if (o == "p.copy") { e.P[a[1]].reset(new Sample(at(e.P, a[2]))); return ""; }
    if (o == "p.at") return f(SMP.valueAt(d(a[2])));
    if (o == "p.cross") return f(SMP.timeIntersect(at(e.P, a[2])));
    if (o == "p.print") { SMP.print_sample(); return ""; }
    if (o == "p.get") return f(a[2] == "time" ? SMP.time : a[2] == "value" ? SMP.value : SMP.derivative);
    if (o == "p.set") { (a[2] == "time" ? SMP.time : a[2] == "value" ? SMP.value : SMP.derivative) = d(a[3]); return ""; }
    if (o == "p.del") { e.P.erase(a[1]); return ""; }
    if (o == "q.new") { e.Q[a[1]].reset(new Point(d(a[2]), d(a[3]))); return ""; }
    if (o == "q.copy") { e.Q[a[1]].reset(new Point(at(e.Q, a[2]))); return ""; }
    if (o == "q.print") { PNT.print_point(); return ""; }
    if (o == "q.get") return f(a[2] == "time" ? PNT.time : PNT.value);
    if (o == "q.set") { (a[2] == "time" ? PNT.time : PNT.value) = d(a[3]); return ""; }
    if (o == "q.del") { e.Q.erase(a[1]); return ""; }
    throw std::logic_error("unknown operation " + o);
}

int main(int argc, char **argv) {  // ops INPUT OUTPUT
    std::ifstream in(argv[1], std::ios::binary);
    std::ofstream out(argv[2], std::ios::binary);
    std::unique_ptr<Env> e(new Env);
    std::ostringstream cap;
    std::cout.rdbuf(cap.rdbuf());
    std::cerr.rdbuf(nullptr);
    S l;
    while (std::getline(in, l)) {
        A a;
        size_t p = 0;
        for (;;) {
            size_t q = l.find('\t', p);
            a.push_back(unesc(l.substr(p, q == S::npos ? S::npos : q - p)));
            if (q == S::npos) break;
            p = q + 1;
        }
        S r;
        if (a[0] == "CASE") {
            e.reset(new Env);
            Signal::set_semantics("SPACE");
            Signal::set_interpol("LINEAR");
            Signal::set_BigM(10000);
        } else {
            try {
                r = step(*e, a);
            } catch (std::invalid_argument &x) {
                r = S("!ValueError ") + x.what();
            } catch (std::out_of_range &x) {
                r = S("!IndexError ") + x.what();
            } catch (std::logic_error &x) {
                r = "!LogicError";
            } catch (std::exception &x) {
                r = S("!RuntimeError ") + x.what();
            }
        }
        if (cap.tellp() > 0) r += "|" + cap.str();
        cap.str("");
        out << esc(r) << "\n";
        out.flush();
    }
    return 0;
}
