"""Executes the operations of C16 (one per line) through the Python module; one result per line. c16exec.py MODULEDIR IN OUT"""
import sys, os, io, gc, copy, math
sys.path.insert(0, sys.argv[1])
import stlrom
class Drv(stlrom.STLDriver):
    def __init__(self):
        super().__init__(); self.mine = ["kept"]
class Mon(stlrom.STLMonitor):
    def __init__(self):
        super().__init__(); self.mine = {"kept": 1}
class Sig(stlrom.Signal):
    pass
class Empty(Exception): pass
def esc(s): return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")
def unesc(s):
    o = []; i = 0
    while i < len(s):
        if s[i] == "\\": i += 1; o.append({"n": "\n", "t": "\t", "r": "\r"}.get(s[i], s[i]))
        else: o.append(s[i])
        i += 1
    return "".join(o)
def num(t): return int(t) if t.lstrip("-").isdigit() else float(t) if t in ("nan", "inf", "-inf") else float.fromhex(t)
def rows(t):
    v = t.split(";")
    if v and not v[-1]: v.pop()
    return [[num(x) for x in r.split()] for r in v]
def row(t): r = rows(t); return r[0] if r else []
def f(x):
    if isinstance(x, (list, tuple)): return "[" + ", ".join(f(y) for y in x) + "]"
    if isinstance(x, stlrom.Sample): return "<%s %s %s>" % (f(x.time), f(x.value), f(x.derivative))
    if type(x) is not float: return "?%s %r" % (type(x).__name__, x)
    return "nan" if math.isnan(x) else "%.17g" % x
def cp(x, how): return x.copy() if how == "0" else copy.copy(x) if how == "1" else copy.deepcopy(x)
def none(x): return "" if x is None else "?%r" % (x,)
def text(x): return x if type(x) is str else "?%r" % (x,)
BAD = [lambda e: stlrom.STLDriver().add_sample("text"), lambda e: stlrom.STLDriver().parse_string(3), lambda e: stlrom.STLDriver().set_param("p", "x"),
       lambda e: stlrom.STLMonitor().eval_rob("x"), lambda e: stlrom.STLMonitor().eval_rob(1., 2., 3.), lambda e: stlrom.Signal().append_sample(1.),
       lambda e: stlrom.Signal().compute_and(stlrom.Signal()), lambda e: stlrom.Sample(1.), lambda e: stlrom.Point("a", 1.), lambda e: stlrom.Signal.set_BigM("x"),
       lambda e: setattr(stlrom.STLMonitor(), "rob", "x"), lambda e: setattr(stlrom.STLDriver(), "data", 3.), lambda e: stlrom.STLDriver().get_online_rob(1.),
       lambda e: stlrom.STLDriver().get_monitor(), lambda e: stlrom.rand_trace_data("x", 1), lambda e: stlrom.STLDriver(3)]
def step(e, a):
    D, M, G, P, Q = e
    o = a[0]
    def at(m, k):
        if k not in m: raise Empty(k)
        return m[k]
    if o == "gc": gc.collect(); return ""
    if o == "bad":
        try: BAD[int(a[1]) % len(BAD)](e)
        except TypeError: return "TypeError"
        return "no TypeError"
    if o == "rand":
        m, n = int(a[1]), int(a[2]); t = stlrom.rand_trace_data(m, n)
        ok = len(t) == m and all(len(r) == n + 1 and abs(r[0] - i * 0.1) < 1e-9 and all(0 <= x <= 1 for x in r[1:]) for i, r in enumerate(t))
        return "ok" if ok else "bad %r" % (t,)
    if o[0] == "d":
        if o == "d.new": D[a[1]] = stlrom.STLDriver(); return ""
        if o == "d.sub": D[a[1]] = Drv(); return ""
        if o == "d.del": D.pop(a[1], None); return ""
        if o == "d.copy": D[a[1]] = cp(at(D, a[2]), a[3]); return ""
        d = at(D, a[1])
        if isinstance(d, Drv): assert d.mine == ["kept"]
        if o == "d.del2": return none(d.__del__())
        if o == "d.parse": return str(d.parse_string(a[2]))
        if o == "d.parsefile":
            if len(a) > 3: open(a[2], "w", newline="", encoding="utf-8").write(a[3])
            return str(d.parse_file(a[2]))
        if o == "d.add": return none(d.add_sample(row(a[2])))
        if o == "d.data=": d.data = rows(a[2]); return ""
        if o == "d.data": return f(d.data)
        if o == "d.datamut":
            x = d.data
            for r in x: r.append(5.)
            x.append([1.]); x = None; return f(d.data)
        if o == "d.names": return text(d.get_signals_names())
        if o == "d.sem=": return none(d.set_semantics(a[2]))
        if o == "d.sem": return text(d.get_semantics())
        if o == "d.interp=": return none(d.set_interpol(a[2]))
        if o == "d.interp": return text(d.get_interpol())
        if o == "d.rob0": return f(d.get_online_rob())
        if o == "d.rob1": return f(d.get_online_rob(a[2]))
        if o == "d.rob1k": return f(d.get_online_rob(phi_in=a[2]))
        if o == "d.rob2": return f(d.get_online_rob(a[2], num(a[3])))
        if o == "d.rob2k": return f(d.get_online_rob(t0=num(a[3]), phi_in=a[2]))
        if o == "d.robt": return f(d.get_online_rob(t0=num(a[2])))
        if o == "d.param=": return none(d.set_param(a[2], num(a[3])))
        if o == "d.param": return f(d.get_param(a[2]))
        if o == "d.disp": return none(d.disp())
        if o == "d.mon": M[a[3]] = d.get_monitor(a[2]); return ""
        if o == "d.print":
            old, sys.stdout = sys.stdout, io.StringIO()
            try:
                stlrom.print_monitor(d); t = sys.stdout.getvalue()
            finally: sys.stdout = old
            return t[:-1]
    if o[0] == "m":
        if o == "m.new": M[a[1]] = stlrom.STLMonitor(); return ""
        if o == "m.sub": M[a[1]] = Mon(); return ""
        if o == "m.del": M.pop(a[1], None); return ""
        if o == "m.copy": M[a[1]] = cp(at(M, a[2]), a[3]); return ""
        m = at(M, a[1])
        if isinstance(m, Mon): assert m.mine == {"kept": 1}
        if o == "m.del2": return none(m.__del__())
        if o == "m.repr": return repr(m)
        if o == "m.add": return none(m.add_sample(row(a[2])))
        if o == "m.low": return f(m.get_lower_rob())
        if o == "m.up": return f(m.get_upper_rob())
        if o == "m.sem=": return none(m.set_semantics(a[2]))
        if o == "m.sem": return text(m.get_semantics())
        if o == "m.interp=": return none(m.set_interpol(a[2]))
        if o == "m.interp": return text(m.get_interpol())
        if o == "m.eval0": return f(m.eval_rob())
        if o == "m.eval1": return f(m.eval_rob(num(a[2])))
        if o == "m.eval2": return f(m.eval_rob(num(a[2]), num(a[3])))
        if o == "m.time=": return none(m.set_eval_time(num(a[2]), num(a[3])))
        if o == "m.param=": return none(m.set_param(a[2], num(a[3])))
        if o == "m.param": return f(m.get_param(a[2]))
        if o == "m.signal": G[a[2]] = m.get_signal(); return ""
        if o == "m.disp": return none(m.display_formula())
        if o == "m.get": return f(getattr(m, a[2]))
        if o == "m.set": setattr(m, a[2], num(a[3])); return ""
        if o == "m.data": return f(m.data)
        if o == "m.datamut":
            x = m.data
            for r in x: r.append(5.)
            x.append([1.]); x = None; return f(m.data)
        if o == "m.data=": m.data = rows(a[2]); return ""
    if o[0] == "s":
        if o == "s.new": G[a[1]] = stlrom.Signal(); return ""
        if o == "s.sub": G[a[1]] = Sig(); return ""
        if o == "s.del": G.pop(a[1], None); return ""
        if o == "s.copy": G[a[1]] = cp(at(G, a[2]), a[3]); return ""
        s = at(G, a[1])
        if o == "s.app2": return none(s.append_sample(num(a[2]), num(a[3])))
        if o == "s.app3": return none(s.append_sample(num(a[2]), num(a[3]), num(a[4])))
        if o == "s.not": return none(s.compute_not(at(G, a[2])))
        if o == "s.and": return none(s.compute_and(at(G, a[2]), at(G, a[3])))
        if o == "s.or": return none(s.compute_or(at(G, a[2]), at(G, a[3])))
        if o == "s.bool": return none(s.compute_boolean(at(G, a[2])))
        if o == "s.left": return none(s.compute_left_time_rob(at(G, a[2])))
        if o == "s.right": return none(s.compute_right_time_rob(at(G, a[2])))
        if o == "s.list": return f(s.get_samples_list())
        if o == "s.listmut":
            x = s.get_samples_list()
            for y in x: y.value = 77.; y.time = -5.
            y = None; x = None; return f(s.get_samples_list())
        if o == "s.begin": return f(s.begin_time)
        if o == "s.end": return f(s.end_time)
        if o == "s.begin=": s.begin_time = num(a[2]); return ""
        if o == "s.end=": s.end_time = num(a[2]); return ""
    if o[0] == "S":
        if o == "S.sem=": return none(stlrom.Signal.set_semantics(a[1]))
        if o == "S.sem": return text(stlrom.Signal.get_semantics())
        if o == "S.interp=": return none(stlrom.Signal.set_interpol(a[1]))
        if o == "S.interp": return text(stlrom.Signal.get_interpol())
        if o == "S.big=": return none(stlrom.Signal.set_BigM(num(a[1])))
        if o == "S.big": return f(stlrom.Signal.get_BigM())
    if o[0] == "p":
        if o == "p.new": P[a[1]] = stlrom.Sample(num(a[2]), num(a[3]), num(a[4])); return ""
        if o == "p.copy": P[a[1]] = cp(at(P, a[2]), a[3]); return ""
        if o == "p.del": P.pop(a[1], None); return ""
        p = at(P, a[1])
        if o == "p.at": return f(p.value_at(num(a[2])))
        if o == "p.cross": return f(p.time_intersect(at(P, a[2])))
        if o == "p.print": return none(p.print_sample())
        if o == "p.get": return f(getattr(p, a[2]))
        if o == "p.set": setattr(p, a[2], num(a[3])); return ""
    if o[0] == "q":
        if o == "q.new": Q[a[1]] = stlrom.Point(num(a[2]), num(a[3])); return ""
        if o == "q.copy": Q[a[1]] = stlrom.Point(at(Q, a[2])) if a[3] == "3" else cp(at(Q, a[2]), a[3]); return ""
        if o == "q.del": Q.pop(a[1], None); return ""
        q = at(Q, a[1])
        if o == "q.print": return none(q.print_point())
        if o == "q.get": return f(getattr(q, a[2]))
        if o == "q.set": setattr(q, a[2], num(a[3])); return ""
    raise RuntimeError("unknown operation " + o)
def main():
    lines = open(sys.argv[2], newline="\n", encoding="utf-8").read().split("\n")[:-1]
    out = open(sys.argv[3], "w", newline="\n", encoding="utf-8", errors="replace")
    cap = sys.argv[3] + ".stdout"
    fd = os.open(cap, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600); os.dup2(fd, 1)
    rd = open(cap, errors="replace", newline="", encoding="utf-8")
    e = ({}, {}, {}, {}, {})
    for l in lines:
        a = [unesc(x) for x in l.split("\t")]
        if a[0] == "CASE":
            e = ({}, {}, {}, {}, {})
            stlrom.Signal.set_semantics("SPACE"); stlrom.Signal.set_interpol("LINEAR"); stlrom.Signal.set_BigM(10000)
            r = ""
        else:
            try: r = step(e, a)
            except Empty: r = "!LogicError"
            except (ValueError, IndexError, RuntimeError) as x: r = "!%s %s" % (type(x).__name__, x)
            except Exception as x: r = "!?%s %s" % (type(x).__name__, x)
        t = rd.read()
        if t: r += "|" + t
        out.write(esc(r) + "\n"); out.flush()
    e = None; gc.collect()
    out.write("END\n"); out.close()
main()
