"""C33: elapsed times and the time limit of the search."""
from fractions import Fraction as Q
import rules
from rules import *
from rules_bb import Search, atoms_of
from rules_iter import uncast

TG = 'C33'
NOW = re.compile(r'^(std::chrono::.*::now|RuntimeMonitor::(cputime|now|wctime)|clock_gettime|clock|gettimeofday)$')
def number(t):
    if t.op == 'c': return Q(t.a[0])
    if t.op == 'fc':
        try: return Q(float(str(t.a[0]))) if not isinstance(t.a[0], (int, float)) else Q(t.a[0])
        except (ValueError, OverflowError): return None
    if t.op == 'i2f': return number(t.a[0])
    return None
def scaled(t):
    """t as (factor, coarsest unit it was rounded to, difference of two times)"""
    if t.op in ('i2f', 'f2i', 'sext', 'zext', 'fpext', 'fptrunc'):
        f, c, d = scaled(t.a[0])
        return f, max(c, 1 / f) if t.op == 'f2i' and f else c, d
    if t.op in ('sdiv', 'udiv'):
        k = number(t.a[1])
        if not k: raise Unk('division')
        f, c, d = scaled(t.a[0])
        f = f / k
        return f, max(c, abs(1 / f)), d
    if t.op == 'fdiv':
        k = number(t.a[1])
        if not k: raise Unk('division')
        f, c, d = scaled(t.a[0]); return f / k, c, d
    if t.op in ('fmul', 'mul') and len(t.a) == 2:
        for x, y in (t.a, t.a[::-1]):
            k = number(x)
            if k: f, c, d = scaled(y); return f * k, c, d
        raise Unk('product')
    if t.op == 'flin' and t.a[0] == 0 and len(t.a[1]) == 1:
        (x, k), = t.a[1]; f, c, d = scaled(x); return f * Q(k), c, d
    if t.op in ('lin', 'flin'):
        ks = [Q(k) for _, k in t.a[1]]
        if t.a[0]: raise Unk('a constant is added')
        if len(ks) == 1:
            (x, k), = t.a[1]; f, c, d = scaled(x); return f * k, c, d
        if len(ks) == 2 and ks[0] == -ks[1]:
            (x, k), (y, _) = t.a[1]
            if k < 0: x, y, k = y, x, -k
            try:
                fx, cx, dx = scaled(x); fy, cy, dy = scaled(y)     # both rounded first
                if fx == fy and dx[1] is None and dy[1] is None: return fx * k, max(cx, cy), (dx[0], dy[0])
            except Unk: pass
            return Q(k), Q(1), (x, y)
        raise Unk('sum')
    if t.op == 'arg' or t.op in ('call', 'rcall', 'pcall') and NOW.match(str(t.a[0])) or t.op == 'fld' and t.a[0].op == 'arg': return Q(1), Q(1), (t, None)
    raise Unk('not a scaled difference: %s' % show(t)[:80])
def clockname(t):
    t = uncast(t)
    if t.op in ('call', 'rcall', 'pcall') and NOW.match(str(t.a[0])): return str(t.a[0])
    s = str(t)
    m = re.match(r'^(.*)#\d+$', s)
    return m.group(1) if m and NOW.match(m.group(1)) else None

UNITS = [('elapsedMilliseconds', 10**6, 'milliseconds'), ('elapsedSeconds', 10**9, 'seconds'), ('elapsedSinceMicro', 10**3, 'microseconds'),
         ('elapsedSince', 10**6, 'milliseconds'), ('milli', 10**6, 'milliseconds')]
@rule('C33')
def clocks(r):
    inner = {}
    for nm, per, unit in UNITS:
        for F in r.fns('cont', r'^RuntimeMonitor::%s\(' % nm, must=False):
            ctx = 'RuntimeMonitor::' + nm + ('(start)' if len(F.g.args) == 1 else '(start,end)')
            def go(F=F, nm=nm, per=per, unit=unit, ctx=ctx):
                n = 0
                for x in F.g.rets:
                    if not isinstance(x.value, T): raise Unk('result')
                    for g, v in ite_cases(F.S(x.value)):
                        if not satis(band(g, F.v.SB(x.gate))): continue
                        n += 1
                        f, c, d = scaled(v)
                        a0 = F.A(0)
                        end = F.A(1) if len(F.g.args) > 1 else None
                        if d[1] is None: raise Bad('%s: gives %s, not a difference of two times' % (ctx, show(v)[:80]), x)
                        if d[0] is a0 and (end is None and clockname(d[1]) or d[1] is end): raise Bad('%s: runs backwards' % ctx, x)
                        if d[1] is not a0 or (d[0] is not end if end is not None else not clockname(d[0])): raise Unk('difference %s' % show(v)[:100])
                        if f <= 0: raise Bad('%s: runs backwards' % ctx, x)
                        if f != Q(1, per): raise Bad('%s: one nanosecond counts for %s, needs 1/%d (%s)' % (ctx, f, per, unit), x)
                        if c > max(min(per, 10**6), 1): raise Bad('%s: rounded to %s ns, too coarse for %s' % (ctx, c, unit), x)
                        if end is None: inner[ctx] = clockname(d[0])
                if not n: raise Unk('no result')
            r.ob(TG, '%s: the time from start to end, in %s' % (ctx, unit), go)
    def same():
        starts = {}
        for F in r.fns('cont', r'^RuntimeMonitor::(cputime|now)\('):
            for x in F.g.rets:
                c = clockname(F.S(x.value)) if isinstance(x.value, T) else None
                if c is None: raise Unk('clock of ' + F.name)
                starts[F.name] = c
        for ctx, c in inner.items():
            for f, s in starts.items():
                if s != c: raise Bad('%s reads %s, %s reads %s: their difference means nothing' % (ctx, c, f, s))
        if len(set(starts.values())) > 1: raise Bad('cputime() and now() read different clocks')
    r.ob(TG, 'all elapsed times are taken from the same clock', same)

@rule('C33')
def limit(r):
    try: s = Search(r)
    except Bad as b:
        def bad(b=b): raise Unk('roles')
        r.ob(TG, 'search: roles', bad); return
    except Unk as u:
        def unk(u=u): raise u
        r.ob(TG, 'search: roles', unk); return
    F = s.F; me = s.me; main = s.main
    lim = [e for e in F.calls('std::function::operator()') if F.a(e, 0) is mk('adr', me, 'BAndB.2')]
    def isset(): return bnot(eq0(F.S(F.g.load(F.g.events[0].mem, mkptr(F.g.args[0], 0, (), ()), 8, 'ptr')))) if False else None
    def called(t):
        """event of a call, from its result"""
        es = [e for e in F.events if e.kind == 'call' and e.ret is not None and F.S(e.ret) is t]
        return es[0] if len(es) == 1 else None
    def measure(t):
        """(start, end, milliseconds per unit): the elapsed time t stands for"""
        k = Q(1)
        while True:
            if t.op in ('i2f', 'f2i'): t = t.a[0]; continue
            if t.op == 'fdiv' and number(t.a[1]): k /= number(t.a[1]); t = t.a[0]; continue
            if t.op == 'fmul':
                n = [(number(x), y) for x, y in (t.a, t.a[::-1]) if number(x)]
                if n: k *= n[0][0]; t = n[0][1]; continue
            if t.op == 'flin' and t.a[0] == 0 and len(t.a[1]) == 1: (x, c), = t.a[1]; k *= Q(c); t = x; continue
            break
        e = called(t)
        if e is None or not e.name.startswith('RuntimeMonitor::'): raise Unk('what the limit is asked with: %s' % show(t)[:80])
        u = {n: p for n, p, _ in UNITS}.get(e.name[16:])
        if u is None: raise Unk('what the limit is asked with: %s' % e.name)
        a = [F.a(e, i) for i in range(len(e.args))]
        return e, a[0], a[1] if len(a) > 1 else None, k / Q(u, 10**6)
    def asked():
        if not lim: 
            if any(not isinstance(e.name, str) for e in F.events if e.kind == 'call') or F.foreign(): raise Unk('limit')
            raise Bad('search: the time limit is never asked', s.ext)
        ins = [e for e in lim if main in F.under(e)]
        if not ins: raise Bad('search: the time limit is not asked while the search goes on', lim[0])
        if any(len(F.under(e)) > 1 for e in ins): raise Unk('limit in an inner loop')
        ret = bor(*[band(F.gate(e), F.v.SB(F.g.tobool(e.ret))) for e in ins])
        for e in s.apply:
            if len(F.under(e)) > 1: raise Unk('apply in an inner loop')
            if not any(x.idx < e.idx for x in ins): raise Bad('search: a node is compiled before the time limit is asked', e)
            chk_imp(F.gate(e), bnot(ret), 'search: a node is compiled', e)
            # set, but not asked
            unset = [a for x in ins for a in atoms_of(F.gate(x)) if a.op == 'eq0' and '_M_manager' in show(a)]
            if len(set(unset)) != 1: raise Unk('is a limit set?')
            got = bor(*[F.gate(x) for x in ins])
            chk_imp(band(F.gate(e), bnot(atom(unset[0]))), got, 'search: a node is compiled without asking the time limit', e)
    r.ob(TG, 'search: no node is compiled before the limit is asked, nor after it says stop', asked)
    def since():
        for e in lim:
            t = F.a(e, 1)
            for g, v in ite_cases(t):
                if not satis(band(g, F.gate(e))): continue
                c, st, en, k = measure(v)
                def clk(x):
                    ev = called(x)
                    return ev if ev is not None and NOW.match(ev.name) else None
                S_, E_ = clk(st), clk(en) if en is not None else c
                if S_ is None and st.op == 'phi': raise Bad('search: the limit is asked with the time since %s changed last, not since the search began' % show(st), c)
                if S_ is None or E_ is None: raise Unk('start of the measure')
                if F.under(S_) and not F.under(E_): raise Bad('search: the time the limit is asked with runs backwards', c)
                if F.under(S_): raise Bad('search: the limit is asked with the time since this turn began, not since the search began', c)
                if main not in F.under(E_) and main in F.under(e): raise Bad('search: the limit is asked with a time that stands still', c)
                if S_.idx > min([x.idx for x in s.apply] or [0]): raise Unk('start')
                if k != 1: raise Bad('search: the limit is asked with the time multiplied by %s, in milliseconds' % k, e)
    r.ob(TG, 'search: the limit is asked with the milliseconds since the search began', since)
    def keeps():
        F2 = r.fn('dd', r'^k_bb_limit\(')
        o, f = F2.A(0), F2.A(1)
        cs = [e for e in F2.events if e.kind == 'call' and (e.name or '').startswith(('std::function::operator=', 'std::function::swap'))]
        dst = mk('adr', o, 'BAndB.2')
        hit = [e for e in cs if F2.a(e, 0) is dst or len(e.args) > 1 and e.name.endswith('swap') and F2.a(e, 1) is dst]
        if not hit:
            if cs or F2.foreign(): raise Unk('setTimeLimit')
            raise Bad('setTimeLimit: the limit is not kept')
        for e in hit: chk(F2.gate(e), TRUE, 'setTimeLimit: keeping the limit', e)
    r.ob(TG, 'setTimeLimit keeps the limit', keeps)
