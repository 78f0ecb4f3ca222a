// C15 traces in files, C20 tests and their reports
#include <sys/stat.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <functional>

#include "sut.h"
using namespace STLRom;

namespace {
struct Hush {
    std::ostringstream o;
    std::streambuf *a, *b;
    Hush() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
    ~Hush() {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
    }
};
// a directory of this case, current while it lives
struct Dir {
    std::string d;
    char old[4096];
    std::vector<std::string> files;
    Dir() {
        char t[] = "/tmp/vhd.XXXXXX";
        if (!mkdtemp(t)) throw Discard("no scratch directory");
        d = t;
        if (!getcwd(old, sizeof old)) strcpy(old, "/");
        if (chdir(d.c_str())) throw Discard("chdir");
    }
    std::string path(const std::string &n) {
        files.push_back(d + "/" + n);
        return files.back();
    }
    ~Dir() {
        if (chdir(old)) _exit(78);
        for (auto &f : files) unlink(f.c_str());
        rmdir(d.c_str());
    }
};
std::string slurp(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
std::vector<std::string> linesOf(const std::string &s) {
    std::vector<std::string> v;
    std::istringstream i(s);
    std::string l;
    while (std::getline(i, l)) v.push_back(l);
    return v;
}
// one double of any size
double anyDouble(Gen &g) {
    switch (g.pick({4, 3, 3, 1, 1})) {
        case 0: return genVal(g, (int)g.below(4)).v;
        case 1: return g.sint(1000000) / 7.0;
        case 2: return g.sint(1000000) * std::pow(10., g.range(-12, 12)) / 3;
        case 3: {
            static const double o[] = {0.1, 1e-300, 1.7976931348623157e308, 2.2250738585072014e-308, -0.0, 123456789.123456789, 1e17, 4503599627370497.5, 0.30000000000000004};
            return o[g.below(9)];
        }
        default: {
            uint64_t b = ((uint64_t)g.below(0xffffffffu) << 32) | g.below(0xffffffffu);
            double d;
            memcpy(&d, &b, 8);
            return std::isfinite(d) && std::fabs(d) > 1e-307 ? d : 1;
        }
    }
}
std::string fmt(Gen &g, double v) {
    char b[400];
    switch (g.below(4)) {
        case 0: snprintf(b, sizeof b, "%.17g", v); break;
        case 1: snprintf(b, sizeof b, "%.17e", v); break;
        case 2: snprintf(b, sizeof b, std::fabs(v) < 1e15 && (v == 0 || std::fabs(v) > 1e-6) ? "%.25f" : "%.17g", v); break;
        default: snprintf(b, sizeof b, "%s%.17g", v >= 0 && !std::signbit(v) ? "+" : "", v);
    }
    return b;
}
bool sameRows(const Rows &a, const Rows &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) return false;
        for (size_t j = 0; j < a[i].size(); j++)
            if (a[i][j] != b[i][j]) return false;
    }
    return true;
}
std::string diffRows(const Rows &a, const Rows &b) {
    std::ostringstream o;
    o.precision(17);
    o << "got " << a.size() << " samples:\n" << printRows(a) << "expected " << b.size() << ":\n" << printRows(b);
    return o.str();
}
}  // namespace

static void c15(Gen &g, Case &c) {
    resetGlobals();
    ScenCfg sc;
    sc.depth = 3;
    Scen s = genScen(g, sc);
    bool wild = g.chance(1, 2);  // data unrelated to the formula
    if (wild) {
        int n = g.chance(1, 40) ? 60 + (int)g.below(300) : 1 + (int)g.below(6);
        s.data.clear();
        double t = anyDouble(g);
        if (!(std::fabs(t) < 1e15)) t = 0;
        for (int i = 0; i < n; i++) {
            std::vector<double> r = {t};
            for (int j = 0; j < s.nsig; j++) r.push_back(anyDouble(g));
            s.data.push_back(r);
            double u = t + g.below(1000) / 7.0 + 0.001;
            t = u > t ? u : t + std::fabs(t) + 1;
        }
    }
    bool empty = g.chance(1, 12);
    if (empty) s.data.clear();
    c.text = s.show();
    c.commit();
    Dir dir;
    // written by the driver
    STLDriver d, e, f;
    load(d, s);
    load(e, s, false);
    load(f, s, false);
    std::string fn = dir.path("a.txt");
    {
        Hush h;
        d.dump_trace_file(fn);
    }
    bool old = g.chance(1, 3);
    if (old) {
        // the driver held something else before
        e.add_sample(std::vector<double>(s.nsig + 1, 77.));
        e.get_online_rob("phi", 0);
    }
    bool ok;
    {
        Hush h;
        ok = e.read_trace_file(fn);
    }
    c.checks += 2;
    if (!ok) fail("read_trace_file failed on a file written by dump_trace_file");
    if (!sameRows(e.data, s.data)) fail("data read back from dump_trace_file:\n" + diffRows(e.data, s.data));
    if (!sameRows(d.data, s.data)) fail("dump_trace_file changed the data");
    // written by somebody else
    std::string text;
    static const char *sp[] = {" ", "  ", "\t", " \t "};
    bool crlf = g.chance(1, 5);
    for (size_t i = 0; i < s.data.size(); i++) {
        if (g.chance(1, 6)) text += sp[g.below(4)];
        for (size_t j = 0; j < s.data[i].size(); j++) {
            if (j) text += sp[g.below(4)];
            text += fmt(g, s.data[i][j]);
        }
        if (g.chance(1, 4)) text += sp[g.below(4)];
        if (i + 1 < s.data.size() || g.chance(1, 2)) text += crlf ? "\r\n" : "\n";
        if (g.chance(1, 10) && i + 1 < s.data.size()) text += crlf ? "\r\n" : "\n";
    }
    c.text += "file:\n" + text + "\n";
    c.commit();
    std::string fn2 = dir.path("b.txt");
    {
        std::ofstream o(fn2, std::ios::binary);
        o << text;
    }
    {
        Hush h;
        ok = f.read_trace_file(fn2);
    }
    c.checks += 2;
    if (!ok) fail("read_trace_file failed");
    if (!sameRows(f.data, s.data)) fail("data read from a text file:\n" + diffRows(f.data, s.data));
    Rows r2;
    {
        Hush h;
        ok = read_trace(fn2, r2);
    }
    if (!ok || !sameRows(r2, s.data)) fail("read_trace:\n" + diffRows(r2, s.data));
    // the same results from data that came through a file
    if (!s.data.empty()) {
        for (STLDriver *q : {&e, &f}) {
            std::vector<double> a, b;
            {
                Hush h;
                a = d.get_online_rob("phi", s.t0);
                b = q->get_online_rob("phi", s.t0);
            }
            c.checks++;
            for (int k = 0; k < 3; k++)
                if (!(a[k] == b[k] || (std::isnan(a[k]) && std::isnan(b[k])) || near(a[k], b[k], 1e-12)))
                    fail("value " + std::to_string(k) + " is " + num(b[k]) + " on the data read from the file, " + num(a[k]) + " on the same samples given directly");
        }
        // and the driver goes on with further samples
        auto row = s.data.back();
        row[0] = row[0] + std::fabs(row[0]) + 1;
        if (std::isfinite(row[0])) {
            e.add_sample(row);
            c.checks++;
            bool thrown = false;
            try {
                f.add_sample(s.data.back());
            } catch (const std::invalid_argument &) {
                thrown = true;
            }
            if (!thrown) fail("a sample at the time of the last one of the file was accepted");
            if (e.data.size() != s.data.size() + 1) fail("a sample after the file is missing");
        }
    }
    // rows of any number of columns
    if (g.chance(1, 4)) {
        Rows rg, back;
        std::string tx, rfn = dir.path("r.txt");
        int n = (int)g.below(5), wide = g.chance(1, 8) ? 400 : g.chance(1, 3) ? 24 : 4;
        for (int i = 0; i < n; i++) {
            std::vector<double> r;
            int w = 1 + (int)g.below(wide);
            for (int j = 0; j < w; j++) {
                r.push_back(anyDouble(g));
                tx += (j ? " " : "") + fmt(g, r.back());
            }
            tx += "\n";
            rg.push_back(r);
        }
        c.text += "file of any rows:\n" + tx;
        c.commit();
        {
            std::ofstream o(rfn, std::ios::binary);
            o << tx;
        }
        STLDriver q;
        {
            Hush h;
            ok = read_trace(rfn, back) && q.read_trace_file(rfn);
        }
        c.checks++;
        if (!ok || !sameRows(back, rg)) fail("read_trace of rows of different lengths:\n" + diffRows(back, rg));
        if (!sameRows(q.data, rg)) fail("read_trace_file of rows of different lengths:\n" + diffRows(q.data, rg));
        c.label("any-rows");
    }
    // a file that does not exist
    {
        Hush h;
        STLDriver m;
        ok = m.read_trace_file(dir.d + "/nosuch");
    }
    c.checks++;
    if (ok) fail("reading a missing file reported success");
    // printing
    {
        std::ostringstream o;
        d.print_trace(o);
        auto ls = linesOf(o.str());
        c.checks++;
        if (ls.size() != s.data.size()) fail("print_trace wrote " + std::to_string(ls.size()) + " lines for " + std::to_string(s.data.size()) + " samples");
        for (size_t i = 0; i < ls.size(); i++) {
            std::istringstream in(ls[i]);
            double v;
            size_t j = 0;
            std::string w;
            while (in >> w) {
                v = strtod(w.c_str(), nullptr);
                if (j >= s.data[i].size() || !(near(v, s.data[i][j], 1e-4))) fail("print_trace: " + ls[i]);
                j++;
            }
            if (j != s.data[i].size()) fail("print_trace: " + ls[i]);
        }
    }
    // dump(): the robustness of every formula at time 0 in a file of its name
    if (!s.data.empty() && !wild) {
        Mode m;
        m.previous = g.chance(1, 4);
        m.sem = g.pick({4, 1, 1});
        setMode(d, m);
        Quiet_: {
            Hush h;
            if (g.chance(1, 2)) d.get_online_rob("phi", s.t0);
            std::string extra = "other := " + std::string(sigName(s.nsig - 1)) + "[t] > 0\nother_formula_2 := not (" + std::string(sigName(0)) + "[t] > 1)\n";
            if (!d.parse_string(extra)) fail("rejected " + extra);
            d.dump();
        }
        auto checkDump = [&](const std::string &when) {
            for (const char *id : {"phi", "other", "other_formula_2"}) {
                auto ls = linesOf(slurp(dir.path(std::string(id) + ".out")));
                std::vector<double> v;
                {
                    Hush h;
                    v = d.get_online_rob(id, 0);
                }
                c.checks += 2;
                if (ls.empty()) fail(std::string("dump wrote nothing for ") + id + when);
                double t = NAN, y = NAN;
                std::istringstream in(ls[0]);
                in >> t >> y;
                if (!near(y, v[0], 1e-6)) fail(std::string("dump") + when + ": " + id + ".out starts with " + ls[0] + ", get_online_rob at 0 gives " + num(v[0]));
            }
        };
        checkDump("");
        std::string extra2 = "other := " + std::string(sigName(s.nsig - 1)) + "[t] > 0\nother_formula_2 := not (" + std::string(sigName(0)) + "[t] > 1)\n";
        if (g.chance(1, 2)) {  // the files are there already
            auto row = s.data.back();
            row[0] += 1;
            if (g.chance(1, 2)) d.add_sample(row);
            if (g.chance(1, 3)) d.data.resize(1);
            if (g.chance(1, 3)) d.data = Rows(s.data.begin() + g.below((uint32_t)s.data.size()), s.data.end());
            {
                Hush h;
                d.dump();
            }
            checkDump(" over the files of the first dump");
            // nothing of the first dump is left
            STLDriver q;
            load(q, s, false);
            setMode(q, m);
            std::map<std::string, std::string> got;
            for (const char *id : {"phi", "other", "other_formula_2"}) got[id] = slurp(id + std::string(".out")), unlink((id + std::string(".out")).c_str());
            {
                Hush h;
                if (!q.parse_string(extra2)) fail("rejected " + extra2);
                q.data = d.data;
                q.dump();
            }
            c.checks++;
            for (auto &e2 : got)
                if (slurp(e2.first + ".out") != e2.second) fail("dump over existing files: " + e2.first + ".out holds\n" + e2.second + "a new file holds\n" + slurp(e2.first + ".out"));
            std::string tf = dir.path("a.txt");
            {
                Hush h;
                d.dump_trace_file(tf);
            }
            Rows rb;
            c.checks++;
            if (!read_trace(tf, rb) || !sameRows(rb, d.data)) fail("dump_trace_file over an existing file:\n" + diffRows(rb, d.data));
            c.label("dump-again");
        }
        c.label("dump");
    }
    if (wild) c.label("any-doubles");
    if (empty) c.label("no-samples");
    if (crlf) c.label("crlf");
    c.nontrivial = s.data.size() > 1;
}
static Reg r15({"C15", c15, 50000, 400000, "random samples (any finite doubles) written by the driver or in random layouts and read back; non-trivial: more than one sample", false});

// ---------------------------------------------------------------- C20
namespace {
struct MTest {
    std::string id, pos, neg;
    NodeP f;
    bool err = false;
};
struct MEntry {
    MTest t;
    std::map<std::string, double> local;
};
struct MTrace {
    std::string id, env;
    double sim = 0;
    bool visu = false;
    std::vector<MEntry> e;
};
std::string n12(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.12f", v);
    std::string t = b;
    while (t.back() == '0') t.pop_back();
    if (t.back() == '.') t.pop_back();
    return t == "-0" ? "0" : t;
}
}  // namespace

static void c20(Gen &g, Case &c) {
    resetGlobals();
    int nsig = 1 + (int)g.below(2);
    if (g.chance(1, 12)) nsig = 3 + (int)g.below(10);
    Env env;
    GenCfg gc;
    gc.nsig = nsig;
    gc.params = true;
    gc.env = &env;
    gc.tmode = (int)g.below(2);
    gc.vmode = g.pick({4, 4, 0, 0, 1});
    gc.maxb = 3;
    if (gc.vmode == 4) gc.nonlin = false;
    bool api = g.chance(1, 4);  // by calls instead of by the parser
    // formulas of the tests first: their parameters are global ones
    int nd = 1 + (int)g.below(g.chance(1, 20) ? 12 : 3);
    std::vector<MTest> defs;
    static const char *msg[] = {"", "all well", "x above 3, again", "problem: [0,1] #5", "a b  c"};
    auto messages = [&](MTest &t) {
        t.pos = msg[g.below(5)];
        t.neg = msg[g.below(5)];
        t.err = g.chance(1, 2);
    };
    for (int i = 0; i < nd; i++) {
        MTest t;
        t.id = "tst" + std::to_string(i);
        t.f = genF(g, gc, (int)g.below(4), 2);
        messages(t);
        defs.push_back(t);
    }
    double h = 0;
    for (auto &t : defs) h = std::max(h, horizon(t.f, env));
    std::string sigs = "signal x";
    for (int i = 1; i < nsig; i++) sigs += std::string(", ") + sigName(i);
    sigs += "\n";
    if (nsig > 4) c.label("more-than-4-signals");
    std::string tx = sigs;
    const std::map<std::string, double> declared = env.par;
    std::map<std::string, double> glob = declared;
    for (auto &p : env.par) tx += "param " + p.first + " = " + n12(p.second) + "\n";
    for (int i = 0; i < nd; i++) tx += "f" + std::to_string(i) + " := " + printF(defs[i].f) + "\n";
    auto printLocals = [&](const std::map<std::string, double> &l) {
        std::string s = " (";
        bool first = true;
        for (auto &p : l) {
            if (g.chance(1, 12)) {  // given twice: the later one counts
                s += (first ? "" : ", ") + p.first + " = " + n12(p.second + 1);
                first = false;
            }
            s += (first ? "" : ", ") + p.first + " = " + n12(p.second);
            first = false;
        }
        return s + ")";
    };
    auto boundsFine = [&](const NodeP &f, const std::map<std::string, double> &l) {
        Env e;
        e.par = glob;
        for (auto &p : l) e.par[p.first] = p.second;
        std::function<bool(const NodeP &)> ok = [&](const NodeP &n) {
            if (!n) return true;
            if (n->k >= Node::EV && (e.bound(n->a) < 0 || e.bound(n->b) < e.bound(n->a))) return false;
            return ok(n->l) && ok(n->r);
        };
        return ok(f);
    };
    auto genLocals = [&](const NodeP &f) {
        std::map<std::string, double> l;
        for (auto &p : declared) {
            if (!g.chance(1, 3)) continue;
            double v = g.chance(1, 2) ? genVal(g, gc.vmode).v : genTime(g, gc.tmode, 4).v;
            l[p.first] = v;
            if (!boundsFine(f, l)) l.erase(p.first);
        }
        return l;
    };
    std::vector<MTrace> queue;
    std::set<int> known;
    std::vector<std::string> pieces(1, tx);
    struct Call {
        int kind;  // 0 trace, 1 named, 2 named with locals, 3 definition
        MTrace t;
        MEntry e;
        int def;
    };
    std::vector<Call> calls;
    int nt = 1 + (int)g.below(3), total = 0;
    bool redefined = false;
    for (int i = 0; i < nt; i++) {
        MTrace T;
        T.id = "Trace" + std::to_string(i);
        static const char *envs[] = {"", "env1", "road.cfg -x 3", "e"};
        T.env = envs[g.below(4)];
        std::string s = "test " + T.id + " : \"" + T.env + "\"";
        if (g.chance(1, 2)) {
            T.sim = g.below(100) / 4.0;
            T.visu = g.chance(1, 2);
            s += ", " + n12(T.sim) + ", " + (T.visu ? "true" : "false");
        }
        s += " {\n";
        if (api) {
            s = "add_trace_test " + T.id + " \"" + T.env + "\" " + num(T.sim) + (T.visu ? " visu\n" : "\n");
            calls.push_back({0, T, MEntry(), 0});
        }
        int ne = 1 + (int)g.below(g.chance(1, 20) ? 15 : 4);
        for (int j = 0; j < ne; j++) {
            int k = (int)g.below(nd);
            bool def = !known.count(k);
            if (api && !def && g.chance(1, 6)) {  // the same name given to another test
                messages(defs[k]);
                defs[k].f = defs[g.below(nd)].f;
                def = redefined = true;
            }
            MEntry e;
            e.t = defs[k];
            if (g.chance(1, 2)) e.local = genLocals(e.t.f);
            std::string body = "{ " + printF(e.t.f) + ", \"" + e.t.pos + "\", \"" + e.t.neg + "\", " + (e.t.err ? "true" : "false") + " }";
            if (api) {
                s += "add_stl_test " + e.t.id + (e.local.empty() ? "" : printLocals(e.local)) + (def ? body : "") + "\n";
                int fi = 0;
                while (defs[fi].f != e.t.f) fi++;
                // f<i> names the formula test i had at first
                if (def && fi >= nd) fi = k;
                calls.push_back({def ? 3 : e.local.empty() && g.chance(1, 2) ? 1 : 2, MTrace(), e, fi});
            } else {
                s += "  " + e.t.id;
                if (!e.local.empty()) s += printLocals(e.local);
                if (def) s += " " + body;
                s += "\n";
            }
            known.insert(k);
            total++;
            T.e.push_back(e);
        }
        if (!api) s += "}\n";
        queue.push_back(T);
        if (api) {
            if (i == 0) pieces.push_back("");
        } else if (g.chance(1, 3))
            pieces.push_back("");
        pieces.back() += s;
    }
    // data of each trace
    std::vector<Rows> data;
    for (int i = 0; i < nt; i++) {
        DataCfg dc;
        dc.tmode = gc.tmode;
        dc.vmode = gc.vmode;
        dc.last = g.chance(1, 2) ? h + 1 : h * g.below(4) / 4;
        data.push_back(genData(g, nsig, dc));
    }
    Mode m;
    m.previous = g.chance(1, 5);
    m.sem = g.pick({5, 1, 1});
    for (auto &p : pieces) c.text += p + "----\n";
    for (auto &d : data) c.text += "trace:\n" + printRows(d);
    c.text += "mode " + modeName(m) + "\n";
    c.commit();
    auto define = [&](STLDriver &d) {
        Hush q;
        if (!api) {
            for (auto &p : pieces)
                if (!p.empty() && !d.parse_string(p)) fail("rejected:\n" + p + q.o.str());
            return;
        }
        if (!d.parse_string(pieces[0])) fail("rejected:\n" + pieces[0] + q.o.str());
        for (auto &k : calls) {
            if (k.kind == 0) d.add_trace_test(k.t.id, k.t.env, k.t.sim, k.t.visu);
            if (k.kind == 1) d.add_stl_test(k.e.t.id);
            if (k.kind == 2) d.add_stl_test(k.e.t.id, k.e.local);
            if (k.kind == 3) {
                STLDriver x;  // the formula belongs to another driver, which goes away
                std::string s = tx + "phi := " + printF(k.e.t.f) + "\n";
                if (!x.parse_string(s)) fail("rejected: " + s);
                d.add_stl_test(k.e.t.id, k.e.local, x.formula_map["phi"], k.e.t.pos, k.e.t.neg, k.e.t.err);
            }
        }
    };
    auto sameState = [&](STLDriver &a, STLDriver &b, const char *how) {
        c.checks++;
        if (a.report != b.report || a.test_log != b.test_log || a.nb_test_pos != b.nb_test_pos || a.nb_test_total != b.nb_test_total || a.error_flag != b.error_flag || a.trace_test_queue.size() != b.trace_test_queue.size() || a.data != b.data)
            fail(std::string(how) + " differs: report\n" + a.report + "instead of\n" + b.report + "positive " + std::to_string(a.nb_test_pos) + "/" + std::to_string(a.nb_test_total) + " instead of " + std::to_string(b.nb_test_pos) + "/" + std::to_string(b.nb_test_total));
    };
    STLDriver d;
    define(d);
    setMode(d, m);
    STLDriver orig(d);
    bool useCopy = g.chance(1, 4), runBoth = g.chance(1, 2);
    if (useCopy) {
        STLDriver e(d), f;
        if (runBoth) {
            Hush q;
            e.data = data[0];
            e.run_tests();  // must not disturb d
        }
        f = d;
        d = f;
        c.label("copied");
    }
    int pos = 0;
    auto valueOf = [&](const NodeP &f, const std::map<std::string, double> &local, const Rows &rows) {
        Hush q;
        STLDriver x;
        std::string s = sigs;
        for (auto &p : glob) {
            auto it = local.find(p.first);
            s += "param " + p.first + " = " + n12(it == local.end() ? p.second : it->second) + "\n";
        }
        s += "phi := " + printF(f) + "\n";
        if (!x.parse_string(s)) fail("rejected: " + s);
        setMode(x, m);
        x.data = rows;
        return x.get_online_rob("phi", 0)[0];
    };
    auto runAll = [&]() {
        for (int i = 0; i < nt; i++) {
            const MTrace &T = queue[i];
            c.checks += 4;
            if (d.trace_test_queue_empty()) fail("no test left before " + T.id);
            if (d.get_next_trace_test_env() != T.env) fail("environment of " + T.id + " is \"" + d.get_next_trace_test_env() + "\"");
            const trace_test *tt = d.get_next_trace_test();
            if (!tt || tt->id != T.id || tt->sim_time != T.sim || tt->visu != T.visu || tt->tests.size() != T.e.size()) fail("next trace test is not " + T.id + " with its " + std::to_string(T.e.size()) + " tests, simulation time " + num(T.sim));
            const stl_test *st = d.get_next_stl_test();
            if (!st || st->test_id != T.e[0].t.id) fail("next test is not " + T.e[0].t.id);
            // a new global value between two traces
            if (!glob.empty() && g.chance(1, 3)) {
                auto it = glob.begin();
                std::advance(it, g.below((uint32_t)glob.size()));
                double old = it->second, v = genVal(g, gc.vmode).v;
                bool ok = true;
                it->second = v;
                for (auto &Q : queue)
                    for (auto &e : Q.e) ok = ok && boundsFine(e.t.f, e.local) && boundsFine(e.t.f, {});
                for (auto &t : defs) ok = ok && boundsFine(t.f, {});
                if (ok)
                    d.set_param(it->first, v);
                else
                    it->second = old;
            }
            if (g.chance(1, 8)) {  // the suite goes on in another driver
                int k = (int)g.below(4);
                STLDriver e;
                if (k != 1 && g.chance(1, 2)) {
                    Hush q;
                    e = orig;
                    e.data = data[0];
                    if (!e.trace_test_queue_empty()) e.run_tests();
                }
                if (k == 0) {
                    e = d;
                    sameState(e, d, "an assigned copy of the driver");
                    d = e;
                } else if (k == 1) {
                    STLDriver f(d);
                    sameState(f, d, "a copy of the driver");
                    d = f;
                } else if (k == 2) {
                    STLDriver f(d);
                    e = std::move(f);
                    sameState(e, d, "a driver moved by assignment");
                    d = std::move(e);
                } else {
                    STLDriver f(d), f2(std::move(f));
                    sameState(f2, d, "a moved driver");
                    d = std::move(f2);
                }
                c.label("copied-between-traces");
            }
            d.data = data[i];
            size_t r0 = d.report.size(), l0 = d.test_log.size();
            bool flag;
            {
                Hush q;
                flag = d.run_tests();
            }
            std::string rep = d.report.substr(r0), log = d.test_log.substr(l0);
            // expectation: the formula alone, on the same data, with the local values in place of the global ones
            bool expFlag = false;
            auto rl = linesOf(rep), ll = linesOf(log);
            size_t at = 0;
            auto next = [&]() -> std::string {
                while (at < rl.size() && rl[at].find_first_not_of(" \t") == std::string::npos) at++;
                return at < rl.size() ? rl[at++] : "";
            };
            std::string head = next();
            c.checks++;
            if (head.find(T.id) == std::string::npos) fail("report of " + T.id + ":\n" + rep);
            if (ll.size() != T.e.size()) fail("test log of " + T.id + " has " + std::to_string(ll.size()) + " lines:\n" + log);
            for (size_t j = 0; j < T.e.size(); j++) {
                const MEntry &e = T.e[j];
                double v = valueOf(e.t.f, e.local, data[i]);
                c.checks += 3;
                std::string l = next(), id = e.t.id;
                double got = NAN, gl = NAN;
                size_t p = l.find(id + ": "), q = ll[j].find(id + ": ");
                if (p == std::string::npos || q == std::string::npos) fail("report line of " + id + " in " + T.id + ": \"" + l + "\", log \"" + ll[j] + "\"");
                got = strtod(l.c_str() + p + id.size() + 2, nullptr);
                gl = strtod(ll[j].c_str() + q + id.size() + 2, nullptr);
                auto shown = [&](double x) { return std::fabs(x - v) <= 2e-5 * std::fabs(v) + 1e-13; };
                if (!shown(got) || !shown(gl)) fail("test " + id + " of " + T.id + ": report \"" + l + "\", log \"" + ll[j] + "\", the formula has robustness " + num(v));
                if (v > 0 && v < 1e-3) c.label("barely-positive");
                bool pb = l.find("PB") != std::string::npos, okk = l.find("OK") != std::string::npos;
                bool ep = v > 0;
                if (pb != ep || okk == ep) fail("test " + id + " of " + T.id + " with robustness " + num(v) + " is reported as \"" + l + "\"");
                if (ep) {
                    pos++;
                    if (e.t.err) expFlag = true;
                }
                const std::string &msg = ep ? e.t.pos : e.t.neg;
                if (!msg.empty()) {
                    std::string ml = next();
                    if (ml.find(msg) == std::string::npos) fail("message of test " + id + " (robustness " + num(v) + ") is \"" + ml + "\", expected \"" + msg + "\"");
                }
            }
            c.checks += 5;
            if (!next().empty()) fail("report of " + T.id + " says more than its tests:\n" + rep);
            if (flag != expFlag) fail(std::string("run_tests of ") + T.id + " returned " + (flag ? "true" : "false") + "\n" + rep);
            if (d.nb_test_pos != pos) fail("nb_test_pos is " + std::to_string(d.nb_test_pos) + " after " + T.id + ", expected " + std::to_string(pos));
            // the driver's own formulas and parameters
            for (auto &p : glob)
                if (d.get_param(p.first) != p.second) fail("running " + T.id + " changed parameter " + p.first + " from " + num(p.second) + " to " + num(d.get_param(p.first)));
            int k = (int)g.below(nd);
            if (!redefined) {
                Hush q;
                auto v = d.get_online_rob("f" + std::to_string(k), 0);
                double w = valueOf(defs[k].f, {}, data[i]);
                if (v.size() != 3 || !near(v[0], w, 1e-9)) fail("after running " + T.id + " the driver's formula f" + std::to_string(k) + " has robustness " + (v.empty() ? "none" : num(v[0])) + ", expected " + num(w));
            }
        }
        c.checks += 3;
        if (!d.trace_test_queue_empty() || d.get_next_formula() || d.get_next_stl_test() || d.get_next_trace_test() || !d.get_next_trace_test_env().empty()) fail("tests left after the last trace");
        std::string before = d.test_log;
        {
            Hush q;
            if (g.chance(1, 4) && d.run_tests()) fail("run_tests() without tests returned true");
        }
        if (d.nb_test_pos != pos || d.nb_test_total != total || d.test_log != before) fail("run_tests() without tests changed the counts");
    };
    c.checks++;
    if (d.nb_test_total != total) fail("nb_test_total is " + std::to_string(d.nb_test_total) + ", " + std::to_string(total) + " tests were given");
    runAll();
    {
        Dir dir;
        std::string f = dir.path("log");
        bool ok, bad;
        {
            Hush q;
            ok = d.dump_test_log_file(f);
            bad = d.dump_test_log_file(dir.path("nosuch/log"));
        }
        std::string t = slurp(f);
        if (bad) fail("dump_test_log_file says that it wrote a file in a directory that does not exist");
        if (!ok || t.find(d.test_log) == std::string::npos) fail("dump_test_log_file wrote:\n" + t);
        if (t.find(std::to_string(pos) + "/" + std::to_string(total)) == std::string::npos) fail("dump_test_log_file does not report " + std::to_string(pos) + "/" + std::to_string(total) + ":\n" + t);
    }
    // the copy made before the run still has all of its tests
    if (orig.nb_test_pos != 0 || orig.trace_test_queue.size() != queue.size() || !orig.report.empty()) fail("running the tests changed a copy of the driver");
    {
        Hush q;
        orig.data = data[0];
        orig.run_tests();
        orig.clear();
    }
    auto cleared = [&](STLDriver &x) {
        c.checks++;
        if (!x.trace_test_queue_empty() || x.nb_test_total != 0 || x.nb_test_pos != 0 || !x.report.empty() || !x.test_log.empty() || x.error_flag) fail("clear() left tests or their results");
    };
    cleared(orig);
    // a cleared driver takes the same suite again
    if (g.chance(1, 3)) {
        c.text += "clear(), and the same again\n";
        c.commit();
        d.clear();
        cleared(d);
        glob = declared;
        pos = 0;
        define(d);
        if (d.nb_test_total != total) fail("nb_test_total is " + std::to_string(d.nb_test_total) + ", " + std::to_string(total) + " tests were given after clear()");
        runAll();
        c.label("cleared-and-again");
    }
    if (api) c.label("calls");
    c.label("locals=" + std::to_string(!queue[0].e[0].local.empty()));
    c.label("traces=" + std::to_string(nt));
    c.nontrivial = total > 1;
}
static Reg r20({"C20", c20, 30000, 250000, "random test suites with local parameters, run on a trace each; non-trivial: more than one test", false});
