// C12: a specification text means what the grammar says, however it is written
#include <array>
#include <unistd.h>

#include <fstream>

#include "sut.h"
using namespace STLRom;

extern std::string g_caseTmp;

namespace {
struct Hush {
    std::ostringstream o;
    std::streambuf *a, *b;
    Hush() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
    ~Hush() {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
    }
};

// ---- canonical printing: everything parenthesised, plain operators, plain numbers ----
struct Names {
    std::vector<std::string> sig;
    std::map<std::string, NodeP> defs;
};
std::string cE(const ExprP &e, const Names &n, bool top = false) {
    switch (e->k) {
        case Expr::SIG: return n.sig[e->sig] + "[t]";
        case Expr::CST: return e->num.s;
        case Expr::PAR: return e->par;
        case Expr::ABS: return "(abs(" + cE(e->l, n) + "))";
        default: return "(" + cE(e->l, n) + (e->k == Expr::ADD ? " + " : e->k == Expr::SUB ? " - " : " * ") + cE(e->r, n) + ")";
    }
}
std::string cF(const NodeP &f, const Names &n) {
    auto I = [&] { return "[" + printB(f->a) + "," + printB(f->b) + "] "; };
    switch (f->k) {
        case Node::ATOM: return "(" + cE(f->el, n) + (f->less ? " < " : " > ") + cE(f->er, n) + ")";
        case Node::NOT: return "(not " + cF(f->l, n) + ")";
        case Node::AND: return "(" + cF(f->l, n) + " and " + cF(f->r, n) + ")";
        case Node::OR: return "(" + cF(f->l, n) + " or " + cF(f->r, n) + ")";
        case Node::IMP: return "(" + cF(f->l, n) + " => " + cF(f->r, n) + ")";
        case Node::EV: return "(ev_" + I() + cF(f->l, n) + ")";
        case Node::ALW: return "(alw_" + I() + cF(f->l, n) + ")";
        default: return "(" + cF(f->l, n) + " until_" + I() + cF(f->r, n) + ")";
    }
}

// ---- the surface text: a token list ----
struct Surf {
    Gen &g;
    std::vector<std::string> tok;
    std::vector<size_t> cut;  // token index where a statement starts
    explicit Surf(Gen &g) : g(g) {}
    void put(const std::string &s) { tok.push_back(s); }
};
bool wordc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }
bool needSep(const std::string &a, const std::string &b) {
    if (a.empty() || b.empty()) return false;
    if (wordc(a.back()) && wordc(b[0])) return true;
    // a sign directly before a digit would be read as part of the number
    if ((a == "-" || a == "+") && wordc(b[0])) return true;
    // two symbols that would be read as one
    if (a == "-" && b[0] == '>') return true;
    if ((a == "<" || a == ">" || a == "=" || a == ":") && (b[0] == '=' || b[0] == '>')) return true;
    return false;
}
std::string sep(Gen &g, int style, bool need) {
    if (style == 0) return " ";
    if (g.chance(1, 1500)) {  // far more than one buffer of the scanner
        size_t n = 3000 + g.below(16000);
        std::string r;
        switch (g.below(3)) {
            case 0: return std::string(n, ' ');
            case 1:
                for (size_t i = 0; i < n; i += 40) r += "# line of a long remark, x[t] > 3 (\n";
                return r;
            default: return " #" + std::string(n, '-') + "\n";
        }
    }
    switch (g.pick({style == 2 ? 1 : 6, need ? 0 : 6, 1, 1, 1, 1, 1})) {
        case 0: return " ";
        case 1: return "";
        case 2: return "   ";
        case 3: return "\t";
        case 4: return "\n";
        case 5: return "\r\n";
        default: {
            static const char *cm[] = {"remark", "phi := (", "\"open", "alw_[0,1] x[t] > 2", "", "# twice", "param p1 = 3", "100% <> []"};
            return " #" + std::string(cm[g.below(8)]) + (g.chance(1, 4) ? "\r\n" : "\n");
        }
    }
}
std::string render(Gen &g, const std::vector<std::string> &tok, size_t from, size_t to, int style) {
    std::string s;
    for (size_t i = from; i < to; i++) {
        if (i > from) s += sep(g, style, needSep(tok[i - 1], tok[i]));
        s += tok[i];
    }
    if (g.chance(1, 2)) s += style ? sep(g, style, false) : "\n";
    return s;
}
// another way of writing the same number
std::string numForm(Gen &g, const std::string &s) {
    std::string sign, b = s;
    if (b[0] == '-') {
        sign = "-";
        b = b.substr(1);
    } else if (g.chance(1, 6))
        sign = "+";
    bool dot = b.find('.') != std::string::npos;
    switch (g.pick({4, 1, 1, 1, 1})) {
        case 1: b = std::string(1 + g.below(2), '0') + b; break;
        case 2: b += dot ? std::string(1 + g.below(3), '0') : ".0"; break;
        case 3:
            if (!dot) b += ".";
            break;
        case 4:
            if (dot && b[0] == '0') b = b.substr(1);
            break;
        default: break;
    }
    return sign + b;
}

struct PGen {
    Gen &g;
    GenCfg &c;
    Surf &s;
    const Names &n;
    std::vector<std::pair<std::string, NodeP>> refs;  // formulas defined before
    int budget = 14;
    void number(const Num &x) { s.put(numForm(g, x.s)); }
    // arithmetic in grammar form: sums of products of atoms
    ExprP prim(int d) {
        budget--;
        switch (g.pick({5, 2, d > 0 ? 2 : 0})) {
            case 0: {
                auto e = mkE(Expr::SIG);
                e->sig = (int)g.below(c.nsig);
                s.put(n.sig[e->sig]);
                s.put("[");
                s.put("t");
                s.put("]");
                return e;
            }
            case 1: {
                auto e = genConst(g, c);
                if (e->k == Expr::PAR)
                    s.put(e->par);
                else
                    number(e->num);
                return e;
            }
            default: {
                s.put("(");
                auto e = sum(d - 1);
                s.put(")");
                return e;
            }
        }
    }
    ExprP unary(int d) {
        if (d > 0 && g.chance(1, 5)) {
            s.put("abs");
            s.put("(");
            auto e = sum(d - 1);
            s.put(")");
            return mkE(Expr::ABS, e);
        }
        return prim(d);
    }
    ExprP prod(int d) {
        auto l = unary(d);
        while (budget > 0 && g.chance(1, 4)) {
            s.put("*");
            l = mkE(Expr::MUL, l, unary(d));
        }
        return l;
    }
    ExprP sum(int d) {
        auto l = prod(d);
        while (budget > 0 && g.chance(1, 3)) {
            bool p = g.chance(1, 2);
            s.put(p ? "+" : "-");
            l = mkE(p ? Expr::ADD : Expr::SUB, l, prod(d));
        }
        return l;
    }
    NodeP atom() {
        auto f = std::make_shared<Node>();
        f->k = Node::ATOM;
        bool plain = g.chance(1, 2);
        if (plain) {
            auto e = mkE(Expr::SIG);
            e->sig = (int)g.below(c.nsig);
            s.put(n.sig[e->sig]);
            s.put("[");
            s.put("t");
            s.put("]");
            f->el = e;
        } else
            f->el = sum(2);
        f->less = g.chance(1, 2);
        static const char *lt[] = {"<", "<="}, *gt[] = {">", ">="};
        s.put(f->less ? lt[g.below(2)] : gt[g.below(2)]);
        if (plain) {
            f->er = genConst(g, c);
            if (f->er->k == Expr::PAR)
                s.put(f->er->par);
            else
                number(f->er->num);
        } else
            f->er = sum(2);
        return f;
    }
    void interval(Node &f) {
        f.a.num = g.chance(1, 2) ? genTime(g, c.tmode, c.maxb) : Num("0");
        Num w = genTime(g, c.tmode, c.maxb);
        switch (c.tmode) {
            case 0: f.b.num = Num::dec(lround(f.a.num.v + w.v), 0); break;
            case 1: f.b.num = Num::dbl(f.a.num.v + w.v); break;
            case 2: f.b.num = Num::dec(lround((f.a.num.v + w.v) * 10), 1); break;
            default: f.b.num = Num::dec(lround((f.a.num.v + w.v) * 1000), 3);
        }
        if (c.env->par.size() < 6) {
            if (g.chance(1, 6)) f.a.par = newPar(g, c, f.a.num.v);
            if (g.chance(1, 6)) f.b.par = newPar(g, c, f.b.num.v);
        }
        s.put("[");
        f.a.par.empty() ? number(f.a.num) : s.put(f.a.par);
        if (g.chance(3, 4)) s.put(",");
        f.b.par.empty() ? number(f.b.num) : s.put(f.b.par);
        s.put("]");
    }
    // how the grammar groups: and 1, or 2, => 4, until and the prefix temporal operators 5; the rules of
    // and, or and => have level 1, that of not 3; equal levels group to the left
    enum { LV_AND = 1, LV_OR = 2, LV_NOT = 3, LV_IMP = 4, LV_T = 5 };
    static int tokLevel(Node::K k) { return k == Node::AND ? LV_AND : k == Node::OR ? LV_OR : k == Node::IMP ? LV_IMP : LV_T; }
    static int ruleLevel(Node::K k) { return k == Node::NOT ? LV_NOT : k >= Node::EV ? LV_T : LV_AND; }
    NodeP flat(int d, int td) {
        // stack of pending operators with their left operands
        struct P {
            NodeP op;  // node without its last operand
        };
        std::vector<P> st;
        NodeP cur;
        auto reduce = [&](int lookLevel) {  // lookLevel 0: end
            while (!st.empty() && (lookLevel == 0 || ruleLevel(st.back().op->k) >= lookLevel)) {
                NodeP o = st.back().op;
                st.pop_back();
                if (o->k == Node::NOT || o->k == Node::EV || o->k == Node::ALW)
                    o->l = cur;
                else
                    o->r = cur;
                cur = o;
            }
        };
        int used = td;
        for (;;) {
            // prefixes
            while (budget > 0 && g.chance(1, 4)) {
                auto f = std::make_shared<Node>();
                bool t = used > 0 && g.chance(2, 3);
                budget--;
                if (!t) {
                    f->k = Node::NOT;
                    s.put(g.chance(1, 2) ? "not" : "!");
                } else {
                    used--;
                    f->k = g.chance(1, 2) ? Node::EV : Node::ALW;
                    static const char *ev[] = {"ev_", "ev", "F", "F_", "<>", "<>_"}, *al[] = {"alw_", "alw", "G", "G_", "[]", "[]_"};
                    s.put((f->k == Node::EV ? ev : al)[g.below(6)]);
                    interval(*f);
                }
                st.push_back({f});
            }
            // primary
            budget--;
            int k = g.pick({5, d > 0 && budget > 0 ? 3 : 0, refs.empty() ? 0 : 2});
            if (k == 2) {
                auto &r = refs[g.below((uint32_t)refs.size())];
                if (tdepth(r.second) <= used && budget > -20) {
                    s.put(r.first);
                    cur = r.second;
                    budget -= nnodes(r.second);
                } else
                    k = 0;
            }
            if (k == 0) {
                bool par = g.chance(1, 4);
                if (par) s.put("(");
                cur = atom();
                if (par) s.put(")");
            } else if (k == 1) {
                s.put("(");
                cur = flat(d - 1, used);
                s.put(")");
            }
            if (budget <= 0 || !g.chance(1, 2)) break;
            auto f = std::make_shared<Node>();
            int w = g.pick({3, 3, 2, used > 0 ? 3 : 0});
            f->k = w == 0 ? Node::AND : w == 1 ? Node::OR : w == 2 ? Node::IMP : Node::UNTIL;
            static const char *an[] = {"and", "&"}, *orr[] = {"or", "|"}, *im[] = {"=>", "->"}, *un[] = {"until_", "until", "U", "U_"};
            s.put(w == 0 ? an[g.below(2)] : w == 1 ? orr[g.below(2)] : w == 2 ? im[g.below(2)] : un[g.below(4)]);
            if (w == 3) {
                interval(*f);
                used--;
            }
            reduce(tokLevel(f->k));
            f->l = cur;
            st.push_back({f});
        }
        reduce(0);
        return cur;
    }
};
NodeP clonePar(const NodeP &f) { return f; }

bool feed(STLDriver &d, Gen &g, const std::string &text, int how, std::string &err) {
    Hush h;
    bool ok;
    if (how == 0)
        ok = d.parse_string(text);
    else if (how == 1) {
        std::istringstream i(text);
        ok = d.parse_stream(i);
    } else {
        std::string f = "/tmp/vhp." + std::to_string(getpid()) + ".stl";
        {
            std::ofstream o(f, std::ios::binary);
            o << text;
        }
        ok = d.parse_file(f);
        unlink(f.c_str());
    }
    err = h.o.str();
    return ok;
}
std::vector<double> rob(STLDriver &d, const std::string &f, double t) {
    Hush h;
    return d.get_online_rob(f, t);
}
std::string show3(const std::vector<double> &v) {
    if (v.size() < 3) return "nothing";
    return num(v[0]) + " [" + num(v[1]) + ", " + num(v[2]) + "]";
}
bool same3(const std::vector<double> &a, const std::vector<double> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!near(a[i], b[i], 1e-9)) return false;
    return true;
}
// a text the language does not contain
std::string badText(Gen &g, const Names &n, const std::string &defined, std::string &kind) {
    std::string x = n.sig[0] + "[t]";
    struct B {
        const char *k;
        std::string s;
    };
    std::vector<B> b = {
        {"empty", ""},
        {"missing-operand", "bad := " + x + " >"},
        {"missing-operator", "bad := " + x + " 3"},
        {"open-parenthesis", "bad := (" + x + " > 0"},
        {"extra-parenthesis", "bad := " + x + " > 0)"},
        {"unknown-signal", "bad := nosuch[t] > 0"},
        {"unknown-param", "bad := " + x + " > nosuch"},
        {"unknown-formula", "bad := not nosuch"},
        {"unknown-bound", "bad := alw_[0, nosuch] (" + x + " > 0)"},
        {"no-interval", "bad := alw (" + x + " > 0)"},
        {"half-interval", "bad := ev_[1] (" + x + " > 0)"},
        {"open-interval", "bad := ev_[0, 1 (" + x + " > 0)"},
        {"no-assign", "bad " + x + " > 0"},
        {"no-name", ":= " + x + " > 0"},
        {"reserved-name", std::string(g.chance(1, 2) ? "until" : "F") + " := " + x + " > 0"},
        {"redefinition", defined + " := " + x + " > 0"},
        {"signal-name", n.sig[0] + " := " + x + " > 0"},
        {"no-time", "bad := " + n.sig[0] + " > 0"},
        {"wrong-time", "bad := " + n.sig[0] + "[s] > 0"},
        {"number-only", "bad := 3"},
        {"chain", "bad := 1 < " + x + " < 2"},
        {"equality", "bad := " + x + " = 2"},
        {"unary-minus", "bad := - " + x + " > 2"},
        {"bool-arith", "bad := (" + x + " > 0) + 1 > 0"},
        {"dangling-and", "bad := " + x + " > 0 and"},
        {"leading-or", "bad := or " + x + " > 0"},
        {"not-alone", "bad := not"},
        {"until-no-right", "bad := " + x + " > 0 until_[0,1]"},
        {"param-no-value", "param bad"},
        {"param-expr", "param bad = 1 + 2"},
        {"param-trailing", "param bad = 1,"},
        {"exponent", "bad := " + x + " > 1e3"},
        {"division", "bad := " + x + " / 2 > 1"},
        {"stray", "bad := " + x + " > 0 ;"},
        {"abs-bars", "bad := abs " + x + " > 0"},
        {"late-signal", "param nn = 1 signal zz"},
        {"letters", "hello world"},
        {"quote", "bad := \"" + x + " > 0"},
        {"comment-only", "# nothing\n"},
        {"time-as-name", "t := " + x + " > 0"},
    };
    auto &r = b[g.below((uint32_t)b.size())];
    kind = r.k;
    return r.s;
}
}  // namespace

// kinds of texts that may be correct, or define something, before everything is declared
static const std::set<std::string> &bk9() {
    static const std::set<std::string> s = {"redefinition", "param-expr", "param-trailing", "param-no-value", "late-signal", "missing-operator", "extra-parenthesis", "chain", "exponent", "division", "stray", "equality", "quote", "bool-arith", "comment-only", "empty"};
    return s;
}
// many signals, parameters, formulas and tests in one specification
static void c12large(Gen &g, Case &c) {
    resetGlobals();
    static const int around[] = {127, 128, 255, 256, 1023, 1024, 32767, 32768, 65535, 65536};
    auto size = [&](int lim) {
        int n = g.chance(1, 3) ? 1 + around[g.below(10)] : 1 + (int)g.below(g.chance(1, 3) ? 70000 : 2000);
        return std::min(n, lim);
    };
    int ns = size(70000), np = size(ns > 3000 ? 50 : 3000), nf = size(ns > 3000 || np > 400 ? 6 : 300);
    STLDriver d;
    std::string t;
    std::string err;
    int per = std::max(1 + (int)g.below(5000), ns / 40);
    for (int i = 0; i < ns; i++) {  // one declaration of signals per text
        if (i && i % per == 0) {
            if (!feed(d, g, t, (int)g.below(3), err)) fail("rejected: " + t.substr(0, 300) + "..." + err);
            t.clear();
        }
        t += (i % per == 0 ? "signal s" : ", s") + std::to_string(i);
    }
    t += "\n";
    for (int i = 0; i < np; i++) t += (i % 7 == 0 ? (i ? "\nparam p" : "param p") : ", p") + std::to_string(i) + " = " + std::to_string(i - 20) + ".5";
    t += "\n";
    c.text = std::to_string(ns) + " signals, " + std::to_string(np) + " parameters, " + std::to_string(nf) + " formulas";
    c.commit();
    std::vector<std::array<int, 3>> fs;  // signal, parameter, formula it refers to or -1
    for (int i = 0; i < nf; i++) {
        int a = g.chance(1, 2) ? ns - 1 - (int)g.below(std::min(ns, 3)) : (int)g.below(ns), b = (int)g.below(np), r = i && g.chance(1, 4) ? (int)g.below(i) : -1;
        if (r >= 0 && fs[r][2] >= 0) r = -1;
        fs.push_back({a, b, r});
        t += "f" + std::to_string(i) + " := s" + std::to_string(a) + "[t] > p" + std::to_string(b) + (r >= 0 ? " or f" + std::to_string(r) : "") + "\n";
    }
    if (!feed(d, g, t, (int)g.below(3), err)) fail("rejected: " + t.substr(0, 300) + "..." + err);
    c.checks++;
    std::string names;
    for (int i = 0; i < ns; i++) names += (i ? " s" : "s") + std::to_string(i);
    if (d.get_signals_names() != names) fail("the names of the signals are not listed in the order of their declaration");
    std::vector<double> row(ns + 1);
    for (int k = 0; k < 2; k++) {
        row[0] = k;
        for (int i = 0; i < ns; i++) row[i + 1] = (i * 7 + k) % 1009 - 500;
        d.add_sample(row);
    }
    for (int i = 0; i < nf; i++)
        for (int k = 0; k < 2; k++) {
            auto val = [&](int j) { return (fs[j][0] * 7 + k) % 1009 - 500 - (fs[j][1] - 20 + (fs[j][1] < 20 ? -.5 : .5)); };
            double want = val(i);
            if (fs[i][2] >= 0) want = std::max(want, val(fs[i][2]));
            auto v = rob(d, "f" + std::to_string(i), k);
            c.checks++;
            if (v.size() < 3 || !near(v[0], want, 1e-9)) fail("f" + std::to_string(i) + " over signal " + std::to_string(fs[i][0]) + " and parameter " + std::to_string(fs[i][1]) + " at " + std::to_string(k) + ": " + show3(v) + ", expected " + num(want));
        }
    for (int k = 0; k < 5; k++) {
        int i = (int)g.below(np);
        if (d.get_param("p" + std::to_string(i)) != i - 20 + (i < 20 ? -.5 : .5)) fail("parameter p" + std::to_string(i) + " is " + num(d.get_param("p" + std::to_string(i))));
    }
    STLMonitor m = d.get_monitor("f0");
    if (m.get_signal_names() != names) fail("a monitor lists other signals than its driver");
    c.label("large-specification");
    if (ns > 32767) c.label("more-than-32767-signals");
    c.nontrivial = true;
}
static void c12(Gen &g, Case &c) {
    if (g.chance(1, 3000)) return c12large(g, c);
    resetGlobals();
    Names n;
    static const char *pool[] = {"x", "y", "speed_1", "T", "tt", "andy", "F1", "not_x", "G_x", "U2", "Signal", "a", "untilx", "X_2", "evx", "paramx", "abs1", "E", "e5", "t1", "true1", "or_"};
    int nsig = 1 + (int)g.below(g.chance(1, 20) ? 20 : g.chance(1, 6) ? 8 : 3);
    {
        std::set<int> u;
        while ((int)n.sig.size() < nsig) {
            int i = (int)g.below(22);
            while (u.count(i)) i = (i + 1) % 22;
            u.insert(i);
            n.sig.push_back(pool[i]);
        }
        if (g.chance(1, 40)) n.sig[g.below(nsig)] += std::string(1 + g.below(400), "_aZ9"[g.below(4)]);
    }
    Env env;
    GenCfg gc;
    gc.nsig = nsig;
    gc.params = g.chance(1, 2);
    gc.tmode = (int)g.below(4);
    gc.vmode = (int)g.below(4);
    gc.env = &env;
    gc.maxb = 3;
    Surf s(g);
    PGen pg{g, gc, s, n};
    static const char *fnames[] = {"phi", "mu", "F_x", "phi2", "alws", "nota", "Z", "untilphi"};
    int nf = 1 + (int)g.below(3);
    std::vector<std::pair<std::string, NodeP>> defs;
    std::vector<std::vector<std::string>> stm;      // token lists of the formula statements
    std::vector<std::set<std::string>> needPar;
    for (int i = 0; i < nf; i++) {
        std::string nm = fnames[(i + (int)g.below(3) * 3) % 8];
        for (auto &d : defs)
            if (d.first == nm) nm += "_" + std::to_string(i);
        s.tok.clear();
        pg.budget = g.chance(1, 30) ? 80 : 12;
        int wrap = g.chance(1, 40) ? 1 + (int)g.below(150) : 0;
        s.put(nm);
        s.put(":=");
        for (int k = 0; k < wrap; k++) s.put("(");
        NodeP f = pg.flat(2, 2);
        for (int k = 0; k < wrap; k++) s.put(")");
        defs.push_back({nm, f});
        stm.push_back(s.tok);
        pg.refs.push_back({nm, f});
    }
    double maxm = 0;
    (void)maxm;
    // canonical text
    std::string canon = "signal ";
    for (int i = 0; i < nsig; i++) canon += (i ? ", " : "") + n.sig[i];
    canon += "\n";
    std::map<std::string, std::string> pv;
    for (auto &p : env.par) {
        char b[64];
        snprintf(b, sizeof b, "%.6f", p.second);
        std::string v = b;
        while (v.back() == '0') v.pop_back();
        if (v.back() == '.') v.pop_back();
        if (v == "-0") v = "0";
        pv[p.first] = v;
        canon += "param " + p.first + " = " + v + "\n";
    }
    for (auto &d : defs) canon += d.first + " := " + cF(d.second, n) + "\n";
    // surface: pieces given one after the other
    int style = (int)g.below(3);
    struct Piece {
        std::vector<std::string> tok;
        int how;
        std::string text;
        bool bad = false;
    };
    std::vector<Piece> pieces(1);
    auto cutHere = [&](int num, int den) {
        if (!pieces.back().tok.empty() && g.chance(num, den)) pieces.push_back({});
    };
    auto add = [&](std::initializer_list<std::string> l) { pieces.back().tok.insert(pieces.back().tok.end(), l); };
    {
        // signals, possibly in several declarations, possibly declared again
        int i = 0;
        while (i < nsig) {
            add({"signal"});
            int k = i == 0 || !g.chance(1, 3) ? nsig - i : 1;
            if (g.chance(1, 4)) k = 1 + (int)g.below(nsig - i);
            if (i && g.chance(1, 3)) add({n.sig[g.below(i)], ","});
            for (int j = 0; j < k; j++) {
                if (j) add({","});
                add({n.sig[i + j]});
            }
            if (g.chance(1, 8)) add({",", n.sig[g.below(i + k)]});
            i += k;
            if (i < nsig) pieces.push_back({});
        }
        // parameters: declared before use, some of them several times; the last value counts
        std::vector<std::string> ps;
        for (auto &p : pv) ps.push_back(p.first);
        std::set<std::string> done, wrong;
        for (size_t i = 0; i < ps.size();) {
            cutHere(1, 6);
            add({"param"});
            size_t k = std::min<size_t>(ps.size() - i, 1 + g.below(3));
            for (size_t j = 0; j < k; j++) {
                if (j) add({","});
                bool w = g.chance(1, 8);
                if (w) wrong.insert(ps[i + j]);
                add({ps[i + j], "=", w ? std::string("77") : numForm(g, pv[ps[i + j]])});
            }
            i += k;
        }
        for (auto &t : stm) {
            cutHere(1, 3);
            pieces.back().tok.insert(pieces.back().tok.end(), t.begin(), t.end());
            if (!wrong.empty() && g.chance(1, 2)) {
                cutHere(1, 3);
                auto w = *wrong.begin();
                wrong.erase(wrong.begin());
                add({"param", w, "=", numForm(g, pv[w])});
            }
        }
        while (!wrong.empty()) {
            cutHere(1, 3);
            auto w = *wrong.begin();
            wrong.erase(wrong.begin());
            add({"param", w, "=", numForm(g, pv[w])});
        }
    }
    std::string tx = canon + "---- written as\n";
    for (size_t i = 0; i < pieces.size(); i++) {
        pieces[i].how = (int)g.pick({4, 2, 1});
        pieces[i].text = render(g, pieces[i].tok, 0, pieces[i].tok.size(), style);
        static const char *hn[] = {"parse_string", "parse_stream", "parse_file"};
        tx += std::string(hn[pieces[i].how]) + ": " + pieces[i].text + (pieces[i].text.empty() || pieces[i].text.back() != '\n' ? "\n" : "");
    }
    std::string bk, bad;
    size_t badAt = 0;
    int badHow = 0;
    bool withBad = g.chance(1, 2);
    if (withBad) {
        bad = badText(g, n, defs[0].first, bk);
        badHow = (int)g.below(2);
        badAt = g.below(2);  // 0: before evaluating anything, 1: between two evaluations
        tx += "then a text that is not in the language: " + bad + "\n";
    }
    // between the texts: one outside the language, or another driver reading something
    std::vector<std::pair<std::string, std::string>> mid(pieces.size());  // bad text, text for the other driver
    for (size_t i = 0; i < pieces.size(); i++) {
        if (i && g.chance(1, 5)) {
            std::string kd;
            mid[i].first = badText(g, n, "t", kd);
            if (bk9().count(kd)) mid[i].first = "";
        }
        if (g.chance(1, 5)) {
            static const char *o[] = {"signal b1, x, a1", "signal q\nzz := q[t] > 1\n", "param p1 = 5, p2 = 6\nsignal y, x\nphi := x[t] > p1", "phi := (x[t] > 2", "nonsense", "signal k1, k2, k3, k4, k5\nmu := alw_[0,1] (k3[t] > 0)\n"};
            mid[i].second = o[g.below(6)];
        }
        if (!mid[i].first.empty() || !mid[i].second.empty()) tx += "before text " + std::to_string(i + 1) + (mid[i].first.empty() ? "" : ", not in the language: " + mid[i].first) + (mid[i].second.empty() ? "" : "; another driver reads: " + mid[i].second) + "\n";
    }
    // data
    DataCfg dc;
    dc.tmode = gc.tmode;
    dc.vmode = gc.vmode;
    double h = 0;
    for (auto &d : defs) h = std::max(h, horizon(d.second, env));
    dc.last = g.chance(2, 3) ? h : h * g.below(4) / 4;
    Rows data = genData(g, nsig, dc);
    tx += "samples:\n" + printRows(data);
    c.text = tx;
    c.commit();
    STLDriver A, B;
    std::string err;
    if (!feed(A, g, canon, 0, err)) fail("rejected: " + canon + err);
    std::unique_ptr<STLDriver> Z(new STLDriver);
    for (size_t i = 0; i < pieces.size(); i++) {
        auto &p = pieces[i];
        if (!mid[i].first.empty()) {
            c.checks++;
            if (feed(B, g, mid[i].first, 0, err)) fail("accepted: " + mid[i].first);
            c.label("rejected-between");
        }
        if (!mid[i].second.empty()) {
            feed(*Z, g, mid[i].second, 0, err);
            if (g.chance(1, 4)) Z.reset(new STLDriver);
            c.label("other-driver-between");
        }
        if (!feed(B, g, p.text, p.how, err)) fail("rejected: " + p.text + "\n" + err);
    }
    auto reject = [&] {
        bool ok = feed(B, g, bad, badHow, err);
        c.checks++;
        if (ok) fail("accepted: " + bad);
        if (bk != "param-expr" && bk != "param-trailing" && B.get_param("bad") != 0) fail("the rejected text defined a parameter");
    };
    if (withBad && badAt == 0) reject();
    size_t k = 1 + g.below((uint32_t)data.size());
    std::vector<size_t> pts = {k, data.size()};
    size_t given = 0;
    for (size_t p : pts) {
        for (; given < p; given++) {
            A.add_sample(data[given]);
            B.add_sample(data[given]);
        }
        for (auto &d : defs) {
            for (double t : {data[0][0], 0., data[given - 1][0]}) {
                auto a = rob(A, d.first, t), b = rob(B, d.first, t);
                c.checks++;
                if (a.empty()) fail("no value for " + d.first);
                if (!same3(a, b)) fail(d.first + " at " + num(t) + " after " + std::to_string(given) + " samples: fully parenthesised " + show3(a) + ", as written " + show3(b));
            }
        }
        if (withBad && badAt == 1) reject();
    }
    if (withBad) {
        c.checks++;
        // an error after a complete statement may leave that statement defined
        static const std::set<std::string> after = {"missing-operator", "extra-parenthesis", "chain", "exponent", "division", "stray", "late-signal", "param-expr", "param-trailing", "equality", "quote", "bool-arith"};
        if (!after.count(bk) && !rob(B, "bad", 0).empty()) fail("the rejected text defined a formula");
        for (auto &d : defs) {
            auto a = rob(A, d.first, data[0][0]), b = rob(B, d.first, data[0][0]);
            if (!same3(a, b)) fail(d.first + " after the rejected text: " + show3(b) + ", expected " + show3(a));
        }
        // and the driver still reads valid texts
        std::string extra = "later9 := " + n.sig[nsig - 1] + "[t] > 0";
        if (!feed(B, g, extra, 0, err)) fail("a valid text after a rejected one was rejected: " + err);
        c.label("rejected");
        c.label("bad-" + bk);
    }
    for (auto &p : pv) {
        c.checks++;
        double v = strtod(p.second.c_str(), nullptr);
        if (B.get_param(p.first) != v) fail("parameter " + p.first + " is " + num(B.get_param(p.first)) + ", declared as " + p.second);
    }
    // every signal is the column of its declaration
    {
        std::string t;
        for (int i = 0; i < nsig; i++) t += "s_col" + std::to_string(i) + " := " + n.sig[i] + "[t] > 0\n";
        if (!feed(B, g, t, 0, err)) fail("rejected: " + t + err);
        for (int i = 0; i < nsig; i++) {
            auto v = rob(B, "s_col" + std::to_string(i), data[0][0]);
            c.checks++;
            if (v.size() < 3 || !near(v[0], data[0][i + 1], 1e-9)) fail("signal " + n.sig[i] + " has value " + show3(v) + " at the first sample, given " + num(data[0][i + 1]));
        }
    }
    if (pieces.size() > 1) c.label("several-texts");
    if (style) c.label("free-layout");
    if (nf > 1) c.label("references");
    int nodes = 0;
    for (auto &d : defs) nodes += nnodes(d.second);
    c.nontrivial = nodes > 3;
}
static Reg r12({"C12", c12, 60000, 500000, "random specification written freely (no needless parentheses, aliases, number forms, comments, several texts) and fully parenthesised; non-trivial: more than three formula nodes", false});
