// C13: no input or call sequence crashes, hangs or corrupts memory
#include <unistd.h>

#include <fstream>

#include "sut.h"
using namespace STLRom;

namespace {
struct Hush {
    std::ostringstream o;
    std::streambuf *a, *b;
    Hush() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
    ~Hush() {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
    }
};
const char *words[] = {"signal", "param", "test", "true", "false", "t", "abs", "and", "or", "not", "until_", "alw_", "ev_", "F", "G", "U", "[]", "<>", "=>", "->", ":=", "=", "<", ">", "<=", ">=",
                       "(", ")", "[", "]", "{", "}", ",", ":", "+", "-", "*", "!", "&", "|", "x", "y", "x[t]", "y[t]", "phi", "mu", "p1", "p2", "0", "1", "2.5", "-1", "+3", ".5", "1.", "0.001", "100",
                       "\"env\"", "\"\"", "\"a\\\"b\"", "#c\n", "\n", "x[t]>0", "phi:=x[t]>0", "[0,1]", "[1 2]", "[p1,p2]", "[2,1]", "[-1,1]", "[0,0]", "t1", "test t1:\"env\",1,true{", "new1", "new2", "999999999999999999999", "1e5", ";", "/", "@", "\\", "'", "~", "99"};
const int NW = sizeof words / sizeof *words;

std::string numTok(Gen &g) {
    static const char *odd[] = {"0", "1", "-1", "1000000", "0.000001", "-0", "99999999999999999999", ".0", "+.5", "3.", "007", "2147483648", "-5", "0.1", "0.30000000000000004"};
    return g.chance(1, 3) ? odd[g.below(15)] : genVal(g, (int)g.below(4)).s;
}
std::string someE(Gen &g, int d) {
    switch (g.pick({4, 2, 1, d > 0 ? 2 : 0, d > 0 ? 1 : 0})) {
        case 0: return std::string(g.chance(1, 2) ? "x" : "y") + "[t]";
        case 1: return numTok(g);
        case 2: return g.chance(1, 2) ? "p1" : "p2";
        case 3: {
            static const char *o[] = {" + ", " - ", " * "};
            return "(" + someE(g, d - 1) + o[g.below(3)] + someE(g, d - 1) + ")";
        }
        default: return "(abs(" + someE(g, d - 1) + "))";
    }
}
std::string someI(Gen &g) {
    switch (g.pick({4, 2, 2, 1})) {
        case 0: {
            int a = (int)g.below(4);
            return "[" + std::to_string(a) + "," + std::to_string(a + (int)g.below(4)) + "]";
        }
        case 1: return "[p1,p2]";
        case 2: return "[" + numTok(g) + "," + numTok(g) + "]";
        default: return "[0," + numTok(g) + "]";
    }
}
int g_text = 0, g_uid = 0;  // new names
int g_nf = 2;  // formulas that may be referred to
std::string someF(Gen &g, int d) {
    switch (g.pick({3, d > 0 ? 2 : 0, d > 0 ? 2 : 0, d > 0 ? 2 : 0, d > 0 ? 4 : 0, d > 0 ? 2 : 0, 1})) {
        case 0: return someE(g, 2) + (g.chance(1, 2) ? " > " : " < ") + someE(g, 1);
        case 1: return "not " + someF(g, d - 1);
        case 2: return "(" + someF(g, d - 1) + ") and " + someF(g, d - 1);
        case 3: return someF(g, d - 1) + (g.chance(1, 2) ? " or " : " => ") + someF(g, d - 1);
        case 4: return (g.chance(1, 2) ? "alw_" : "ev_") + someI(g) + " (" + someF(g, d - 1) + ")";
        case 5: return "(" + someF(g, d - 1) + ") until_" + someI(g) + " (" + someF(g, d - 1) + ")";
        default:
            if (g_nf == 0 && !g.chance(1, 20)) return "x[t] > 0";
            return g_nf < 2 || g.chance(1, 2) ? "phi" : "mu";
    }
}
std::string someTest(Gen &g) {
    std::string s = "test T" + std::to_string(g.below(3)) + " : \"env\"";
    if (g.chance(1, 2)) s += std::string(", 10, ") + (g.chance(1, 2) ? "true" : "false");
    s += " {\n";
    int n = 1 + (int)g.below(3);
    for (int i = 0; i < n; i++) {
        bool known = g_uid > 0 && g.chance(1, 4);
        s += "  tt" + std::to_string(known ? (int)g.below(g_uid) : g_uid++);
        if (g.chance(1, 2)) s += " (p1 = " + numTok(g) + (g.chance(1, 2) ? ", p2 = 3" : "") + ")";
        if (!known || g.chance(1, 10)) s += " { " + someF(g, 2) + ", \"pos\", \"" + (g.chance(1, 2) ? "neg" : "") + "\", " + (g.chance(1, 2) ? "true" : "false") + " }";
        s += "\n";
    }
    return s + "}\n";
}
std::string someText(Gen &g) {
    std::string s;
    if (!g.chance(1, 10)) s += g.chance(1, 8) ? "signal x\n" : "signal x, y\n";
    if (!g.chance(1, 10)) s += "param p1 = " + numTok(g) + ", p2 = " + numTok(g) + "\n";
    int n = (int)g.below(4);
    static const char *nm[] = {"phi", "mu", "nu"};
    for (int i = 0; i < n; i++) {
        g_nf = i;
        if (g.chance(1, 5)) {
            g_nf = std::min(i, 1);
            s += someTest(g);
        } else
            s += std::string(nm[i % 3]) + (g_text && !g.chance(1, 10) ? std::to_string(g_text) : "") + " := " + someF(g, 1 + (int)g.below(4)) + "\n";
    }
    return s;
}
std::string soup(Gen &g) {
    std::string s;
    int n = (int)g.below(25);
    for (int i = 0; i < n; i++) {
        s += words[g.below(NW)];
        if (g.chance(3, 4)) s += " ";
    }
    return s;
}
std::string bytes(Gen &g) {
    std::string s;
    int n = (int)g.below(40);
    for (int i = 0; i < n; i++) s += (char)(g.chance(3, 4) ? 32 + g.below(95) : g.below(256));
    return s;
}
std::string deep(Gen &g) {
    int n = 50 + (int)g.below(300);
    std::string a, b;
    int k = (int)g.below(6);
    for (int i = 0; i < n; i++) {
        switch (k) {
            case 0: a += "("; b += ")"; break;
            case 1: a += "not "; break;
            case 2: a += "abs("; b += ")"; break;
            case 3: a += "x[t] > 0 and "; break;
            case 4: a += "x[t] > 0 or "; break;
            default: a += "x[t] + "; break;
        }
    }
    return "signal x, y\nphi := " + a + "x[t]" + (k == 0 || k == 2 || k == 5 ? "" : " > 0") + b + (k == 0 || k == 2 || k == 5 ? " > 0" : "") + "\n";
}
void mutate(Gen &g, std::string &s) {
    int n = 1 + (int)g.below(4);
    for (int i = 0; i < n && !s.empty(); i++) {
        size_t p = g.below((uint32_t)s.size()), l = 1 + g.below(8);
        switch (g.below(7)) {
            case 0: s.erase(p, l); break;
            case 1: s.insert(p, words[g.below(NW)]); break;
            case 2: s[p] = (char)(32 + g.below(95)); break;
            case 3: s.insert(p, s.substr(p, l)); break;
            case 4: s.resize(p); break;
            case 5: s[p] = (char)g.below(256); break;
            default: {
                size_t q = g.below((uint32_t)s.size());
                std::string f = s.substr(q, l);
                s.replace(p, std::min(l, s.size() - p), f);
            }
        }
    }
}
std::string printable(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        char b[8];
        if ((c >= 32 && c < 127) || c == '\n') o += (char)c;
        else {
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    return o;
}
std::string tmpFile(const char *ext) { return "/tmp/vhr." + std::to_string(getpid()) + ext; }
bool feed(STLDriver &d, const std::string &text, int how) {
    if (how == 0) return d.parse_string(text);
    if (how == 1) {
        std::istringstream i(text);
        return d.parse_stream(i);
    }
    std::string f = tmpFile(".stl");
    {
        std::ofstream o(f, std::ios::binary);
        o << text;
    }
    bool ok = d.parse_file(f);
    unlink(f.c_str());
    return ok;
}
double oddTime(Gen &g) {
    static const double o[] = {0, 1, -1, 2.5, 1e-9, 100, 1e6, -1e6, 1e18, 0.1, 5, 3};
    return g.chance(1, 2) ? g.range(0, 6) : o[g.below(12)];
}
double oddVal(Gen &g) {
    static const double o[] = {0, -0.0, 1e300, -1e300, 1e-300, 4.9e-324, INFINITY, -INFINITY, NAN, 1e10, 10000, -10000, 1e17};
    return g.chance(2, 3) ? genVal(g, (int)g.below(4)).v : o[g.below(13)];
}
struct Log {
    Case &c;
    void operator()(const std::string &s) {
        c.text += s + "\n";
        c.commit();
    }
};
bool anyReal(const std::vector<double> &v) {
    for (double x : v)
        if (std::isnan(x)) return false;
    return true;
}
}  // namespace

static void c13(Gen &g, Case &c) {
    resetGlobals();
    Log log{c};
    STLDriver d;
    bool sane = true;  // only finite, moderate numbers so far
    std::string all;
    g_uid = 0;
    int nt = 1 + (int)g.below(3), accepted = 0;
    for (int i = 0; i < nt; i++) {
        g_text = i;
        int k = g.pick({8, 3, 1, 1, 1});
        std::string s = k == 2 ? soup(g) : k == 3 ? bytes(g) : k == 4 ? deep(g) : someText(g);
        if (k == 1 || (k == 4 && g.chance(1, 3))) mutate(g, s);
        int how = (int)g.pick({4, 1, 1});
        log(std::string("parse (") + std::to_string(how) + "): " + printable(s));
        bool ok, ok2;
        {
            Hush h;
            // the same text gives the same answer in a copy, whichever way it is read
            STLDriver e(d);
            ok2 = feed(e, s, (how + 1) % 3);
            ok = feed(d, s, how);
        }
        c.checks++;
        if (ok != ok2) fail(std::string("the same text was ") + (ok ? "accepted" : "rejected") + " one way and " + (ok2 ? "accepted" : "rejected") + " the other");
        accepted += ok;
        c.label(ok ? "accepted" : "rejected");
        all += s;
    }
    std::vector<std::string> ids;
    for (auto &f : d.formula_map) {
        if (!f.second) fail("formula " + f.first + " is defined without content");
        ids.push_back(f.first);
    }
    ids.push_back("nosuch");
    size_t ncol = d.signal_map.size() + 1;
    for (auto &p : d.signal_map)
        if (p.second < 1 || p.second >= (int)ncol) fail("signal " + p.first + " has column " + std::to_string(p.second));
    std::vector<STLMonitor> mons;
    std::vector<Signal> sigs;
    int nops = 3 + (int)g.below(10), evals = 0;
    double lastT = -1;
    auto guarded = [&](const std::string &what, auto fn) {
        log(what);
        Hush h;
        try {
            fn();
        } catch (const std::exception &e) {
            c.label(std::string("throws-") + (dynamic_cast<const std::invalid_argument *>(&e) ? "invalid_argument" : dynamic_cast<const std::out_of_range *>(&e) ? "out_of_range" : "other"));
            if (!dynamic_cast<const std::invalid_argument *>(&e) && !dynamic_cast<const std::out_of_range *>(&e)) fail(what + ": " + e.what());
        }
    };
    for (int i = 0; i < nops; i++) {
        switch (g.pick({8, 5, 2, 4, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1})) {
            case 0: {  // several proper samples
                int n = 1 + (int)g.below(g.chance(1, 60) ? 200 : 5);
                for (int j = 0; j < n; j++) {
                    lastT += 1 + g.below(2);
                    std::vector<double> r = {lastT};
                    for (size_t q = 1; q < ncol; q++) {
                        double v = g.chance(1, 8) ? oddVal(g) : genVal(g, 1).v;
                        if (!(std::fabs(v) < 1e6)) sane = false;
                        r.push_back(v);
                    }
                    std::string tx = "add_sample";
                    for (double v : r) tx += " " + num(v);
                    guarded(tx, [&] { d.add_sample(r); });
                    for (auto &m : mons) guarded("  monitor " + tx, [&] { m.add_sample(r); });
                }
                break;
            }
            case 1: {
                std::string id = ids[g.below((uint32_t)ids.size())];
                double t = oddTime(g);
                evals++;
                guarded("get_online_rob(" + id + ", " + num(t) + ")", [&] {
                    auto v = d.get_online_rob(id, t);
                    c.checks++;
                    if (!v.empty() && v.size() != 3) fail("get_online_rob returned " + std::to_string(v.size()) + " values");
                    if (id == "nosuch" && !v.empty()) fail("a value for an unknown formula");
                });
                break;
            }
            case 2: {
                std::string id = ids[g.below((uint32_t)ids.size())];
                guarded("get_monitor(" + id + ")", [&] {
                    if (mons.size() < 4) mons.push_back(d.get_monitor(id));
                });
                break;
            }
            case 3: {
                if (mons.empty()) break;
                auto &m = mons[g.below((uint32_t)mons.size())];
                double a = oddTime(g), b = g.chance(1, 2) ? a + g.below(5) : oddTime(g);
                evals++;
                guarded("monitor eval_rob(" + num(a) + ", " + num(b) + ")", [&] {
                    m.eval_rob(a, b);
                    if (sigs.size() < 4) sigs.push_back(m.get_signal());
                });
                break;
            }
            case 4: {
                std::vector<double> r;
                int n = g.below(3) ? (int)ncol : (int)g.below(5);
                for (int j = 0; j < n; j++) r.push_back(j ? oddVal(g) : g.chance(1, 2) ? oddVal(g) : lastT + 0.5);
                std::string tx = "add_sample";
                for (double v : r) tx += " " + num(v);
                size_t before = d.data.size();
                bool thrown = true;
                log(tx);
                try {
                    d.add_sample(r);
                    thrown = false;
                } catch (const std::invalid_argument &) {
                }
                sane = false;
                c.checks++;
                if (d.data.size() != before + !thrown) fail("a rejected sample changed the data");
                if (!thrown) lastT = std::max(lastT, std::min(r[0], 1e9));
                break;
            }
            case 5: {
                std::string p = g.chance(1, 2) ? "p1" : g.chance(1, 2) ? "p2" : "nosuch";
                double v = g.chance(1, 2) ? (double)g.below(4) : oddVal(g);
                if (!(std::fabs(v) < 1e6)) sane = false;
                guarded("set_param " + p + " " + num(v), [&] { d.set_param(p, v); });
                if (!mons.empty()) guarded("monitor set_param", [&] { mons[g.below((uint32_t)mons.size())].set_param(p, v); });
                break;
            }
            case 6: {
                static const char *sn[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME", "BOOLEAN", ""}, *in[] = {"LINEAR", "PREVIOUS", "CUBIC"};
                int a = (int)g.below(5), b = (int)g.below(3);
                guarded(std::string("modes ") + sn[a] + " " + in[b], [&] {
                    if (!mons.empty()) {
                        auto &m = mons.back();
                        m.set_interpol(in[b]);
                        m.set_semantics(sn[a]);
                    }
                    d.set_interpol(in[b]);
                    d.set_semantics(sn[a]);
                });
                break;
            }
            case 7:
                guarded("print, disp", [&] {
                    std::ostringstream o;
                    d.print(o);
                    d.disp();
                    d.print_trace(o);
                    d.get_signals_names();
                    for (auto &m : mons) {
                        o << m;
                        m.display_formula();
                        m.display_signal_names();
                        m.get_signal_names();
                    }
                });
                break;
            case 8:
                guarded("copies", [&] {
                    STLDriver e(d), f;
                    f = e;
                    f = f;
                    STLDriver h(std::move(e));
                    e = h;
                    f = std::move(h);
                    h = f;
                    for (auto &id : ids) e.get_online_rob(id, 0);
                    d = std::move(f);
                    f.get_online_rob("phi", 0);
                    f.parse_string("signal x\nphi := x[t] > 0");
                });
                break;
            case 9:
                if (!mons.empty() && g.chance(1, 2))
                    guarded("monitors assigned", [&] {
                        if (mons.size() < 4 && g.chance(1, 3)) mons.push_back(g.chance(1, 2) ? STLMonitor() : d.get_monitor("nosuch"));
                        STLMonitor &a = mons[g.below((uint32_t)mons.size())], &b = mons[g.below((uint32_t)mons.size())];
                        int w = (int)g.below(4);
                        log("  way " + std::to_string(w) + " from " + std::to_string(&b - &mons[0]) + " to " + std::to_string(&a - &mons[0]));
                        if (w == 0) a = b;
                        if (w == 1) a = STLMonitor(b);
                        if (w == 2) a = std::move(b);
                        if (w == 3) std::swap(a, b);
                        for (STLMonitor *m : {&a, &b}) {
                            std::ostringstream o;
                            o << *m;
                            m->get_signal();
                            if (!m->data.empty()) m->eval_rob(0);
                        }
                        if (g.chance(1, 3)) mons.pop_back();
                    });
                else if (!mons.empty())
                    guarded("monitor copies", [&] {
                        STLMonitor a(mons[0]), b;
                        b = a;
                        b = b;
                        STLMonitor e(std::move(a));
                        mons.push_back(b);
                        a = e;
                        e = mons[0];
                        mons[0] = mons.back();
                        mons.pop_back();
                        b.get_signal();
                    });
                break;
            case 10:
                guarded("run_tests", [&] {
                    int k = 0;
                    d.get_next_formula();
                    d.get_next_stl_test();
                    d.get_next_trace_test_env();
                    while (!d.trace_test_queue_empty() && k++ < 20) d.run_tests();
                    d.run_tests();
                    d.dump_test_log_file(tmpFile(".log"));
                    unlink(tmpFile(".log").c_str());
                });
                break;
            case 11:
                guarded("trace file", [&] {
                    std::string f = tmpFile(".tr");
                    if (g.chance(1, 2))
                        d.dump_trace_file(f);
                    else {
                        std::ofstream o(f, std::ios::binary);
                        std::string b = g.chance(1, 2) ? bytes(g) : "0 1 2\n1 2 3\n";
                        log("  content " + printable(b));
                        o << b;
                    }
                    STLDriver e(d);
                    e.read_trace_file(f);
                    unlink(f.c_str());
                    for (auto &id : ids) e.get_online_rob(id, 0);
                });
                break;
            case 12:
                guarded("data assigned", [&] {
                    STLDriver e(d);
                    Rows r;
                    int n = (int)g.below(5);
                    std::string tx;
                    for (int j = 0; j < n; j++) {
                        std::vector<double> w;
                        int k = g.below(3) ? (int)ncol : (int)g.below(4);
                        for (int q = 0; q < k; q++) w.push_back(q ? genVal(g, 0).v : g.chance(1, 2) ? j : oddTime(g));
                        r.push_back(w);
                    }
                    log(printRows(r));
                    e.data = r;
                    for (auto &id : ids) {
                        try {
                            e.get_online_rob(id, 0);
                        } catch (const std::out_of_range &) {
                        }
                    }
                });
                break;
            case 13:
                if (g.chance(1, 3))
                    guarded("clear", [&] {
                        d.clear();
                        ids = {"nosuch"};
                    });
                else
                    guarded("reset", [&] {
                        if (!mons.empty()) mons.back().reset_signal_data();
                    });
                break;
            default: {
                if (sigs.empty()) break;
                guarded("signal operations", [&] {
                    Signal &a = sigs[g.below((uint32_t)sigs.size())], &b = sigs[g.below((uint32_t)sigs.size())];
                    Signal r;
                    double w = (double)g.below(5);
                    switch (g.below(8)) {
                        case 0: r.compute_and(a, b); break;
                        case 1: r.compute_or(a, b); break;
                        case 2: r.compute_not(a); break;
                        case 3: r.compute_until(a, b); break;
                        case 4: r.compute_timed_until(a, b, 0, w); break;
                        case 5: r.compute_timed_eventually(a, 1, 1 + w); break;
                        case 6: r.compute_left_time_rob(a); break;
                        default: r.compute_right_time_rob(b);
                    }
                    std::ostringstream o;
                    o << r;
                    sigs.back() = r;
                });
            }
        }
    }
    (void)anyReal;
    c.nontrivial = !all.empty() && (accepted < nt || evals > 0);
}
static Reg r13({"C13", c13, 90000, 720000, "random texts (grammar-made, mutated, token soup, bytes, deep) followed by random calls with arbitrary numbers; non-trivial: an evaluation or a rejected text", false});

// ---------------------------------------------------------------- C17: memory
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
namespace {
long g_live = 0, g_blocks = 0;
void onMalloc(const volatile void *p, size_t n) {
    if (p) {
        g_live += (long)n;
        g_blocks++;
    }
}
void onFree(const volatile void *p) {
    if (p) {
        g_live -= (long)__sanitizer_get_allocated_size(p);
        g_blocks--;
    }
}
struct Step {
    int k;
    std::string s, id;
    int how = 0, a = 0, b = 0;
    std::vector<double> r;
    std::string show() const {
        static const char *n[] = {"parse", "add_sample", "get_online_rob", "get_monitor", "monitor eval_rob", "monitor sample", "set_param", "copy driver", "assign driver", "move driver", "copy monitor", "assign monitor", "run_tests", "clear", "get_signal", "print", "modes"};
        std::string o = n[k];
        if (k == 0) o += " (" + std::to_string(how) + "): " + printable(s);
        if ((k == 1 || k == 5) && how > 1) o += " (" + std::to_string(how) + " of them, 1 apart)";
        if (!id.empty()) o += " " + id;
        for (double v : r) o += " " + num(v);
        if (k == 4) o += " " + std::to_string(a) + " .. " + std::to_string(b);
        return o;
    }
};
void play(const std::vector<Step> &plan) {
    Hush h;
    STLDriver d;
    std::vector<STLMonitor> mons;
    for (auto &p : plan) {
        try {
            STLMonitor *m = mons.empty() ? nullptr : &mons[p.a % mons.size()];
            switch (p.k) {
                case 0: feed(d, p.s, p.how); break;
                case 1: {
                    auto r = p.r;
                    for (int q = 0; q < std::max(1, p.how); q++, r[0] += 1, r[1 + q % 2] = q % 7 - 3) d.add_sample(r);
                    break;
                }
                case 2: d.get_online_rob(p.id, p.a); break;
                case 3:
                    if (mons.size() < 3) mons.push_back(d.get_monitor(p.id));
                    else mons[p.a % 3] = d.get_monitor(p.id);
                    break;
                case 4:
                    if (m) m->eval_rob(p.a, p.b);
                    break;
                case 5:
                    if (m) {
                        auto r = p.r;
                        for (int q = 0; q < std::max(1, p.how); q++, r[0] += 1, r[1 + q % 2] = q % 7 - 3) m->add_sample(r);
                    }
                    break;
                case 6:
                    d.set_param(p.id, p.a);
                    if (m) m->set_param(p.id, p.a);
                    break;
                case 7: {
                    STLDriver e(d);
                    e.get_online_rob("phi", 0);
                    break;
                }
                case 8: {
                    STLDriver e;
                    e.parse_string("signal z\nphi := alw_[0,1] (z[t] > 0)\ntest Q : \"e\" { qq { z[t] > 0, \"a\", \"b\", true } }");
                    if (p.a & 1) e = d;
                    d = e;
                    STLDriver &alias = d;
                    d = alias;
                    break;
                }
                case 9: {
                    STLDriver e(std::move(d)), f;
                    f.parse_string("signal z\nphi := ev_[0,1] (z[t] > 0)");
                    f = std::move(e);
                    d = std::move(f);
                    break;
                }
                case 10:
                    if (m) {
                        STLMonitor x(*m), y(std::move(x));
                        y.eval_rob(p.a);
                    }
                    break;
                case 11:
                    if (m) {
                        STLMonitor x = d.get_monitor("phi");
                        x = *m;
                        mons[0] = std::move(x);
                        STLMonitor &alias = mons[0];
                        mons[0] = alias;
                    }
                    break;
                case 12:
                    for (int k = 0; k <= p.a && !d.trace_test_queue_empty(); k++) d.run_tests();
                    break;
                case 13: d.clear(); break;
                case 14:
                    if (m) {
                        Signal s = m->get_signal(), r;
                        if (!s.empty()) {
                            r.compute_timed_until(s, s, 0, p.a);
                            r.compute_timed_eventually(s, 0, p.a);
                            r.compute_timed_globally(s, 0, p.a);
                            r.compute_until(s, s);
                            r.compute_and(s, s);
                            r.compute_or(s, s);
                            r.compute_implies(s, s);
                        }
                    }
                    break;
                case 15: {
                    std::ostringstream o;
                    d.print(o);
                    d.get_signals_names();
                    if (m) o << *m;
                    break;
                }
                default: {
                    static const char *sn[] = {"SPACE", "LEFT_TIME", "RIGHT_TIME", "NONE"};
                    d.set_interpol(p.b & 1 ? "PREVIOUS" : "LINEAR");
                    if (m) m->set_semantics(sn[p.a % 4]);
                    d.set_semantics(sn[p.a % 4]);
                }
            }
        } catch (const std::exception &) {
        }
    }
}
}  // namespace

static void c17(Gen &g, Case &c) {
    resetGlobals();
    static int hooked = 0;
    if (!hooked) hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    if (!hooked) throw std::runtime_error("no allocation hooks");
    std::vector<Step> plan;
    g_uid = 0;
    int n = 3 + (int)g.below(10), texts = 0;
    double t = -1;
    static const char *ids[] = {"phi", "mu", "nu", "nosuch"};
    for (int i = 0; i < n; i++) {
        Step s;
        s.k = i == 0 ? 0 : g.pick({4, 6, 4, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1});
        if (s.k == 0) {
            g_text = texts++;
            int k = g.pick({6, 4, 1, 1});
            s.s = k == 2 ? soup(g) : k == 3 ? bytes(g) : someText(g);
            if (k == 1) mutate(g, s.s);
            s.how = (int)g.pick({4, 1, 1});
        }
        s.id = s.k == 6 ? (g.chance(1, 2) ? "p1" : "p2") : (s.k == 2 || s.k == 3) ? ids[g.pick({5, 2, 1, 1})] : "";
        s.a = (int)g.below(5);
        s.b = s.a + (int)g.below(4);
        if (s.k == 1 || s.k == 5) {
            t += 1;
            s.r = {t, (double)g.sint(3), (double)g.sint(3)};
            if (g.chance(1, 10)) {
                s.how = 20 + (int)g.below(280);
                t += s.how;
                c.label("many-samples");
            }
        }
        plan.push_back(s);
    }
    for (auto &s : plan) c.text += s.show() + "\n";
    c.commit();
    play(plan);  // fills whatever is initialised once
    long b0 = g_blocks, l0 = g_live;
    play(plan);
    long b1 = g_blocks, l1 = g_live;
    c.checks++;
    if (b1 != b0 || l1 != l0) fail("after all objects are gone " + std::to_string(b1 - b0) + " blocks (" + std::to_string(l1 - l0) + " bytes) more are allocated than before");
    // evaluating again and again needs no more memory
    {
        Hush h;
        STLDriver d;
        for (auto &p : plan)
            if (p.k == 0) feed(d, p.s, p.how);
        size_t w = d.signal_map.size() + 1;
        for (int i = 0; i < 6; i++) {
            std::vector<double> r(w, (double)((i * 7 + 3) % 5 - 2));
            r[0] = i;
            d.add_sample(r);
        }
        std::vector<std::string> f;
        for (auto &p : d.formula_map) f.push_back(p.first);
        std::string last;
        auto all = [&] {
            for (auto &id : f) try {
                    d.get_online_rob(id, 0);
                    d.get_online_rob(id, 1);
                } catch (const std::exception &) {
                }
            h.o.str("");
        };
        // deques keep different amounts of memory from one evaluation to the next: compare the least amounts
        auto growth = [&](auto once) {
            for (int k = 0; k < 3; k++) once();
            long lo[2];
            for (int w = 0; w < 2; w++) {
                lo[w] = g_live;
                for (int k = 0; k < 30; k++) {
                    once();
                    lo[w] = std::min<long>(lo[w], g_live);
                }
                if (w == 0)
                    for (int k = 0; k < 20; k++) once();
            }
            return lo[1] - lo[0];
        };
        long gr = growth(all);
        c.checks++;
        if (gr > 256) fail("repeated evaluation of all formulas on unchanged data: " + std::to_string(gr) + " bytes more after 50 rounds");
        STLMonitor m;
        if (!f.empty()) {
            m = d.get_monitor(f[0]);
            auto one = [&] {
                try {
                    m.eval_rob(0, 2);
                } catch (const std::exception &) {
                }
                h.o.str("");  // what it prints is not kept
            };
            gr = growth(one);
            c.checks++;
            if (gr > 256) fail("repeated eval_rob of a monitor on unchanged data: " + std::to_string(gr) + " bytes more after 50 evaluations");
            c.label("repeated");
        }
    }
    c.nontrivial = n > 4;
}
static Reg r17({"C17", c17, 30000, 300000, "random life of drivers, monitors, copies and texts (also rejected ones), played twice with all allocations counted; non-trivial: more than four steps", false});
