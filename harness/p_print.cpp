// C22: the displayed form of a formula is that formula
#include <iomanip>

#include "sut.h"
using namespace STLRom;

namespace {
struct Cap {
    std::ostringstream o;
    std::streambuf *a, *b;
    Cap() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(nullptr)) {}
    ~Cap() {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
    }
};
std::string after(const std::string &s, const std::string &k) {
    size_t p = s.find(k);
    if (p == std::string::npos) fail("\"" + k + "\" is not shown in:\n" + s);
    return s.substr(p + k.size());
}
std::string line(const std::string &s) { return s.substr(0, s.find('\n')); }
std::string trim(std::string s) {
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    size_t i = 0;
    while (i < s.size() && isspace((unsigned char)s[i])) i++;
    return s.substr(i);
}
// numbers of any magnitude and number of digits, in the notation of the language
std::string wideNum(Gen &g, bool sign, int emin, int emax) {
    int nd = 1 + (int)g.below(g.chance(1, 3) ? 17 : 4), e = g.range(emin, emax);  // d.ddd * 10^e
    std::string d;
    for (int i = 0; i < nd; i++) d += char('0' + (i ? g.below(10) : 1 + g.below(9)));
    std::string t;
    if (e < 0)
        t = "0." + std::string(-e - 1, '0') + d;
    else if (e + 1 >= nd)
        t = d + std::string(e + 1 - nd, '0');
    else
        t = d.substr(0, e + 1) + "." + d.substr(e + 1);
    return (sign && g.chance(1, 3) ? "-" : "") + t;
}
ExprP widen(Gen &g, const ExprP &e) {
    if (!e) return e;
    auto n = std::make_shared<Expr>(*e);
    if (n->k == Expr::CST && g.chance(1, 2)) n->num = Num(wideNum(g, true, -12, 18));
    n->l = widen(g, e->l), n->r = widen(g, e->r);
    return n;
}
NodeP widen(Gen &g, const NodeP &f) {
    if (!f) return f;
    auto n = std::make_shared<Node>(*f);
    if (n->k == Node::ATOM)
        n->el = widen(g, f->el), n->er = widen(g, f->er);
    else if (n->k >= Node::EV && g.chance(1, 2)) {
        if (n->a.par.empty()) n->a.num = Num(wideNum(g, n->k != Node::UNTIL, -12, 1));
        if (n->b.par.empty()) {
            n->b.num = Num(wideNum(g, n->k != Node::UNTIL, -12, 9));
            if (n->a.par.empty() && n->b.num.v < n->a.num.v) std::swap(n->a.num, n->b.num);
        }
    }
    n->l = widen(g, f->l), n->r = widen(g, f->r);
    return n;
}
}  // namespace

static void c22(Gen &g, Case &c) {
    resetGlobals();
    ScenCfg sc;
    sc.params = true;
    sc.depth = 5;
    sc.maxMag = 1e6;
    sc.cover = false;
    Scen s = genScen(g, sc);
    bool twice = g.chance(1, 3);
    bool wide = g.chance(1, 3);
    static const int precs[] = {15, 17, 6, 10};
    int prec = precs[g.below(4)];
    if (wide) s.f = widen(g, s.f), twice = true, c.label("wide-numbers");
    else prec = 15;
    c.text = s.show() + "precision " + std::to_string(prec) + "\n";
    c.commit();
    STLDriver d;
    load(d, s);
    std::string txt, shown;
    {
        Cap q;
        STLMonitor m = d.get_monitor("phi");
        std::ostringstream o;
        o.precision(prec);
        o << *m.formula;
        txt = o.str();
        // the other ways of showing it agree (at the default precision)
        std::ostringstream o6, mo, po;
        o6 << *m.formula;
        mo << m;
        d.print(po);
        m.display_formula();
        shown = o6.str();
        c.checks += 3;
        if (trim(q.o.str()) != trim(shown)) fail("display_formula shows\n" + q.o.str() + "\nthe formula prints as\n" + shown);
        if (trim(line(after(mo.str(), "Formula: "))) != trim(shown)) fail("the monitor shows\n" + mo.str() + "\nthe formula prints as\n" + shown);
        if (trim(line(after(po.str(), "phi:\n"))) != trim(shown)) fail("the driver shows\n" + po.str() + "\nthe formula prints as\n" + shown);
        for (auto &p : s.env.par) {
            std::string v = line(after(po.str(), "\n" + p.first + "="));
            if (!near(strtod(v.c_str(), nullptr), p.second, 1e-5)) fail("parameter " + p.first + " = " + num(p.second) + " is shown as " + v);
        }
        std::string names;
        for (int i = 0; i < s.nsig; i++) names += (i ? " " : "") + std::string(sigName(i));
        if (d.get_signals_names() != names || m.get_signal_names() != names) fail("signals are listed as \"" + d.get_signals_names() + "\", \"" + m.get_signal_names() + "\", declared: " + names);
    }
    // the text, read again, is the same formula
    STLDriver e;
    std::string spec = s.spec();
    size_t p = spec.find("phi := ");
    spec = spec.substr(0, p) + "phi := " + txt + "\n";
    bool ok;
    {
        Cap q;
        ok = e.parse_string(spec);
    }
    c.checks++;
    if (!ok) fail("the displayed formula is not in the language:\n" + txt + "\n(given as " + printF(s.f) + ")");
    e.data = d.data;
    // with fewer digits than the numbers have, the values differ
    bool exact = prec == 17, same = !wide || exact;
    for (int i = 0; same && i < 2; i++) {
        if (i && !s.env.par.empty()) {  // with other values of the parameters
            auto it = s.env.par.begin();
            std::advance(it, g.below((uint32_t)s.env.par.size()));
            double v = it->second + (g.chance(1, 2) ? 0.25 : 1);
            d.set_param(it->first, v);
            e.set_param(it->first, v);
        }
        std::vector<double> a, b;
        std::string xa, xb;
        try {
            a = d.get_online_rob("phi", s.t0);
        } catch (std::invalid_argument &x) { xa = "refused"; }
        try {
            b = e.get_online_rob("phi", s.t0);
        } catch (std::invalid_argument &x) { xb = "refused"; }
        c.checks += 3;
        if (xa != xb || a.size() != b.size()) fail("displayed as\n" + txt + "\nwhich evaluates differently");
        for (size_t k = 0; k < a.size(); k++)
            if (exact ? !(a[k] == b[k] || (std::isnan(a[k]) && std::isnan(b[k]))) : !near(a[k], b[k], 1e-6)) fail("displayed as\n" + txt + "\nwhich has value " + num(b[k]) + " instead of " + num(a[k]) + " (component " + std::to_string(k) + ")");
    }
    if (twice) {
        Cap q;
        STLMonitor m = e.get_monitor("phi");
        std::ostringstream o;
        o.precision(prec);
        o << *m.formula;
        c.checks++;
        if (o.str() != txt) fail("displayed as\n" + txt + "\nread again and displayed as\n" + o.str());
    }
    c.label("nodes=" + std::to_string(std::min(10, nnodes(s.f))));
    c.nontrivial = nnodes(s.f) > 2;
}
static Reg r22({"C22", c22, 70000, 560000, "random formula displayed and read again; non-trivial: more than two nodes", false});
