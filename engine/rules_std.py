"""C32: the helpers of the library over standard containers.

Analysed in a unit of its own (tool/std.cpp) where std::set<long> is a model:
an ordered sequence between two iterators; every insertion is a direct call."""
from rules import *
from rules_iter import uncast

TG = 'C32'
FIRST = lambda o: fld(o, 'f0')
def lastp(F, o):
    """the end iterators of a container, as it shows in this function"""
    return {x for e in F.events for a in e.args for x in subterms(F.S(a)) if x.op == 'fld' and x.a[0] is o and x.a[1] != 'f0' and str(x.a[1]).endswith('.1')}
MUT = {'insert', 'emplace', 'emplace_hint', 'erase', 'clear', 'swap', 'merge', 'operator='}
def meth(e): return e.name[len('std::set::'):] if e.kind == 'call' and (e.name or '').startswith('std::set::') else None
def sets(F, *ms): return [e for e in F.live([e for e in F.events if meth(e) in ms])]
def source(F, o, what):
    """a set, or the one it is an untouched copy of"""
    cs = [e for e in sets(F, 'set') if F.S(e.args[0]) is o]
    if not cs: return o
    if len(cs) > 1 or len(cs[0].args) != 2 or F.under(cs[0]) or F.gate(cs[0]) is not TRUE: raise Unk(what + ': a set built here is visited')
    if any(F.S(e.args[0]) is o for e in sets(F, *MUT)): raise Unk(what + ': the set visited is modified')
    return F.S(cs[0].args[1])
def walk(F, e, what, early=False):
    """the container whose elements e is done for, one after the other; -> (container, element, loop)"""
    us = F.under(e)
    if not us:
        x = F.foreign()
        if x or any(c.kind == 'call' and c.name == F.name for c in F.events): raise Unk('%s: no loop' % what)
        raise Bad('%s: done once, not for each element' % what, e)
    if len(us) > 1: raise Unk('%s: nested loops' % what)
    t = us[0]
    if t.kind == 'ptr' and t.step > 0:
        lo, hi = F.S(t.lo), F.S(t.hi)
        for o in F.g.args:
            o = F.S(o)
            def off(p, q):
                r, k, ix, _ = psplit(p)
                return k if not ix and F.S(r) is q else None
            if off(t.lo, FIRST(o)): raise Bad('%s: the loop starts %d bytes after the first element' % (what, off(t.lo, FIRST(o))), e)
            if lo is FIRST(o) and any(off(t.hi, x) for x in lastp(F, o)): raise Bad('%s: the loop stops before the last element' % what, e)
    if t.kind != 'stdvec' or getattr(t, 'mixed', False): raise Unk('%s: loop %s' % (what, t))
    if t.early and not early: raise stops(F, t)('%s: the loop over the elements may stop early' % what, e)
    return source(F, t.cont_obj, what), t.elem, t
def loopof(F, t):
    for h, x in F.v.trav.items():
        if x is t: return F.g.loops[h]
    raise Unk('loop')
def sizes(F, c, n):
    """the condition when the container has n elements, if it depends on nothing else"""
    def ev(a):
        xs = [x for x in subterms(a) if x.op in ('pcall', 'rcall', 'call') and str(x.a[0]).endswith('::size')]
        if a.op in ('eq0', 'lt0') and xs:
            k, d = lin_of(a.a[0])
            if set(d) == {xs[0]}:
                v = k + d[xs[0]] * n
                return v == 0 if a.op == 'eq0' else v < 0
        if a.op in ('eq0', 'peq'):
            ds = [x for x in subterms(a) if x.op == 'fld' and x.a[0].op == 'arg']
            if len(set(ds)) == 2 and any(x.a[1] == 'f0' for x in ds) and not any(x.op == 'c' and x.a[0] for x in subterms(a)): return n == 0
        raise Unk('condition %s' % bshow(c)[:120])
    r = c
    for a in list(atoms_of(c)):
        v = ev(a)
        r = band(r, atom(a) if v else bnot(atom(a)))
    return r is not FALSE
def plain(F, rv, what):
    """the value returned when there is something to go through"""
    cs = [(g, v) for g, v in ite_cases(rv)]
    ps = {v for g, v in cs if v.op == 'phi'}
    if all(v.op in ('arg', 'c') for g, v in cs): raise Bad('%s: the elements make no difference to the result %s' % (what, show(rv)[:60]))
    if len(ps) != 1: raise Unk('%s: result %s' % (what, show(rv)[:100]))
    p = ps.pop()
    for g, v in cs:
        if v is not p and any(sizes(F, g, n) for n in (1, 2, 3)): raise Unk('%s: result %s' % (what, show(v)[:100]))
    return p, [(g, v) for g, v in cs if v is not p]
def every(F, e, what): chk(F.gate(e), TRUE, what, e)

@rule('C32')
def folds_std(r):
    """sums and folds over standard containers"""
    def k(nm): return r.fn('std', r'^%s\(' % nm)
    def total(nm, what, call, args):
        def go():
            F = k(nm); e = F.one(F.calls(call), 'the term')
            o, x, t = walk(F, e, what)
            if o is not F.A(0): raise Bad('%s: goes through %s' % (what, show(o)[:60]), e)
            every(F, e, what + ': the term of an element is taken')
            got = [F.S(a) for a in e.args[1:]]
            if args == 2:
                want = [x, None]
                if not (got[1].op == 'fld' and got[1].a[1] == 'UKV._v' and got[1].a[0] is t.phi): raise (Unk if opaque(got[1]) and got[1].op != 'fld' else Bad)('%s: the term of another pair (%s)' % (what, show(got[1])[:80]))
            if got[0] is not x: raise (Unk if opaque(got[0]) else Bad)('%s: the term of another element (%s)' % (what, show(got[0])[:80]))
            rv, rest = plain(F, uncast(F.retval()), what)
            for g, v in rest: val(v, const(0), what + ' of nothing')
            L = loopof(F, t)
            if rv not in L.phis: raise Unk('%s: result %s' % (what, show(rv)[:80]))
            val(F.S(L.phis[rv][1]), const(0), what + ': start')
            bk = uncast(F.S(rv.info['back'])); tv = F.S(e.ret)
            if bk is add(rv, tv): return
            known = set(subterms(tv)) | {rv}
            for g, v in ite_cases(bk):
                if {y for y in subterms(v) if y.op not in ('lin', 'c', 'trunc', 'sext', 'zext')} - known: raise Unk('%s: total %s' % (what, show(v)[:100]))
            raise Bad('%s: after a term the total is %s' % (what, show(bk)[:120]), e)
        r.ob(TG, what, go)
    total('k_std_sumv', 'the sum over a vector adds the term of each element once', 'UTermL::operator()', 1)
    total('k_std_sums', 'the sum over a set adds the term of each element once', 'UTermL::operator()', 1)
    total('k_std_summ', 'the sum over a map adds the term of each pair once', 'UTerm2::operator()', 2)
    def fold(nm, what):
        def go():
            F = k(nm); e = F.one(F.calls('UFoldL::operator()'), 'the operation')
            o, x, t = walk(F, e, what)
            if o is not F.A(0): raise Bad('%s: goes through %s' % (what, show(o)[:60]), e)
            every(F, e, what + ': an element is folded in')
            rv, rest = plain(F, F.retval(), what); L = loopof(F, t)
            a0 = F.S(F.g.args[-1])
            for g, v in rest: val(v, a0, what + ' of nothing')
            if rv not in L.phis: raise Unk('%s: result %s' % (what, show(rv)[:80]))
            val(F.S(L.phis[rv][1]), a0, what + ': start')
            if F.S(e.args[2]) is not x: raise (Unk if opaque(F.S(e.args[2])) else Bad)('%s: another element is folded in' % what)
            if F.S(e.args[1]) is not rv:
                raise (Bad if F.S(e.args[1]) is a0 else Unk)('%s: the accumulator handed on is %s' % (what, show(F.S(e.args[1]))[:80]))
            bk = F.S(rv.info['back'])
            if bk is not F.S(e.ret): raise (Bad if all(v in (rv, a0, F.S(e.ret)) for g, v in ite_cases(bk)) else Unk)('%s: the accumulator becomes %s' % (what, show(bk)[:100]))
        r.ob(TG, what, go)
    fold('k_std_foldl', 'a fold over a set'); fold('k_std_foldlv', 'a fold over a vector')
    def member(nm, what):
        def go():
            F = k(nm); p = F.one(F.calls('UPredL::operator()'), 'the test')
            o, x, t = walk(F, p, what, True)
            if o is not F.A(0): raise Bad('%s: goes through %s' % (what, show(o)[:60]), p)
            every(F, p, what + ': an element is tested')
            if F.S(p.args[1]) is not x: raise (Unk if opaque(F.S(p.args[1])) else Bad)('%s: another element is tested' % what)
            ok = F.v.SB(F.g.tobool(p.ret) if not isinstance(p.ret, Bdd) else p.ret)
            for a, b, eg in t.early:
                g = constrain(F.v.SB(eg), F.v.SB(t.cont))
                if entails(g, ok): continue
                if any(a.op == 'exit' or opaque(a) and a not in atoms_of(ok) for a in atoms_of(g)): raise Unk('%s: leaves the loop if %s' % (what, bshow(g)[:120]))
                raise Bad('%s: stops at an element that does not pass the test' % what, p)
            rb = F.retbool()
            ss = [a for a in atoms_of(rb) if a.op == 'some' and a.a[0] is F.A(0)]
            if len(atoms_of(rb)) == 1 and len(ss) == 1:
                inner = ss[0].a[2]
                pos = isinstance(inner, Bdd) and len(atoms_of(inner)) == 1 and inner is atom(list(atoms_of(inner))[0])
                if not isinstance(inner, Bdd): raise Unk('%s: %s' % (what, bshow(rb)[:100]))
                if rb is atom(ss[0]) and pos: return
                raise Bad('%s: the answer is %s' % (what, bshow(rb)[:120]), p)
            if rb is TRUE or rb is FALSE: raise Bad('%s: the answer is always the same' % what, p)
            raise Unk('%s: answer %s' % (what, bshow(rb)[:120]))
        r.ob(TG, what, go)
    member('k_std_member', 'a test for some element of a set'); member('k_std_memberv', 'a test for some element of a vector')

@rule('C32')
def extremes_std(r):
    """least and largest element of a standard set"""
    def ext(nm, what, empty, least):
        def go():
            F = r.fn('std', r'^%s\(' % nm); s = F.A(0); rv = F.retval(); cs = ite_cases(rv)
            def right(v): return v is fld(FIRST(s), 'f0') if least else v.op == 'fld' and v.a[1] == 'f-8' and v.a[0].op == 'fld' and v.a[0].a[0] is s and v.a[0].a[1] != 'f0'
            def elem(v): return v.op == 'fld' and v.a[0].op == 'fld' and v.a[0].a[0] is s or v.op == 'c'
            for n in (0, 1, 2, 3):
                vs = {v for g, v in cs if sizes(F, g, n)}
                if len(vs) != 1: raise Unk('%s: %s' % (what, show(rv)[:120]))
                v = vs.pop()
                if n == 0:
                    if v is const(empty): continue
                    raise (Bad if elem(v) else Unk)('%s: of the empty set it is %s' % (what, show(v)[:80]))
                if right(v): continue
                raise (Bad if elem(v) else Unk)('%s: of a set with %d elements it is %s' % (what, n, show(v)[:80]))
        r.ob(TG, what, go)
    ext('k_std_min', 'the least element of a set', 9223372036854775807, True)
    ext('k_std_max', 'the largest element of a set', -9223372036854775808, False)

@rule('C32')
def algebra_std(r):
    """union, intersection, removal and filter of standard sets"""
    def k(nm): return r.fn('std', r'^%s\(' % nm)
    def parts(F, what):
        """what goes into the result: [(source, element, condition, event)], and the values erased"""
        res = F.S(F.g.args[0]); ins = []; out = []
        cs = [e for e in sets(F, 'set') if F.S(e.args[0]) is res]
        if len(cs) != 1 or F.under(cs[0]) or F.gate(cs[0]) is not TRUE: raise Unk(what + ': how the result is built')
        if len(cs[0].args) == 2: ins.append((F.S(cs[0].args[1]), None, TRUE, cs[0]))
        elif len(cs[0].args) == 3: ins.append(rng(F, cs[0], what) + (TRUE, cs[0]))
        for e in F.live([e for e in F.events if meth(e)]):
            m = meth(e)
            if m in ('set', '~set', 'size', 'contains', 'count', 'find') or F.S(e.args[0]) is not res and m in MUT | {'lower_bound', 'upper_bound'} and False: continue
            if F.S(e.args[0]) is not res: raise Unk('%s: %s of another set' % (what, m))
            if m in ('insert', 'emplace') and len(e.args) == 2:
                if not F.under(e): raise Unk('%s: single element added' % what)
                o, x, t = walk(F, e, what)
                v = F.S(e.args[1])
                if v is not x: raise (Unk if opaque(v) else Bad)('%s: adds %s instead of the element' % (what, show(v)[:80]))
                ins.append((o, x, F.gate(e), e))
            elif m == 'insert' and len(e.args) == 3 and not F.under(e):
                ins.append(rng(F, e, what) + (F.gate(e), e))
            elif m == 'erase' and len(e.args) == 2 and not F.under(e): out.append((F.sc(e, 1, 'i64', 8), F.gate(e), e))
            elif m in ('insert', 'emplace_hint') and len(e.args) == 3 and F.under(e):
                o, x, t = walk(F, e, what); v = F.S(e.args[2])
                if v is not x: raise Unk('%s: adds %s' % (what, show(v)[:80]))
                ins.append((o, x, F.gate(e), e))
            else: raise Unk('%s: %s' % (what, m))
        return ins, out
    def rng(F, e, what):
        a, b = F.S(e.args[1]), F.S(e.args[2])
        for o in F.g.args:
            o = F.S(o)
            if a is FIRST(o) and b.op == 'fld' and b.a[0] is o and b.a[1] != 'f0': return (o, None)
        ra, ka = psplit(e.args[1])[:2]; rb, kb = psplit(e.args[2])[:2]
        for o in F.g.args:
            o = F.S(o)
            if F.S(ra) is FIRST(o) and ka or F.S(ra) is FIRST(o) and kb: raise Bad('%s: only part of the set is added' % what, e)
        raise Unk('%s: range %s' % (what, show(a)[:60]))
    def count(ns, c):
        """does the condition hold for these numbers of elements? None: it depends on more than that"""
        r = c
        for a in list(atoms_of(c)):
            if a.op not in ('eq0', 'lt0'): return None
            k, d = lin_of(a.a[0])
            for x, m in d.items():
                if not (x.op in ('pcall', 'rcall', 'call') and str(x.a[0]).endswith('::size') and x.a[1] in ns): return None
                k += m * ns[x.a[1]]
            r = band(r, atom(a) if (k == 0 if a.op == 'eq0' else k < 0) else bnot(atom(a)))
        return r is not FALSE
    def union():
        F = k('k_std_or'); what = 'union of two sets'; A, B = F.A(0), F.A(1)
        ins, out = parts(F, what)
        if out: raise Unk('union: erases')
        for o, x, g, e in ins:
            if o not in (A, B): raise Unk('union: %s' % show(o)[:60])
        for o in (A, B):
            gs = [(g, e) for q, x, g, e in ins if q is o]
            if not gs:
                f = F.foreign()
                raise Bad('union: the elements of one set are not added')
            if any(g is TRUE for g, e in gs): continue
            g, e = gs[0]
            for na in (0, 1, 2):
                for nb in (0, 1, 2):
                    if (na if o is A else nb) and count({A: na, B: nb}, g) is False: raise Bad('union: not added if %s' % bshow(bnot(g))[:120], e)
            # an element that the result already has need not be added
            if any(a.op in ('pcall', 'rcall', 'call') or any(y.op in ('pcall', 'rcall', 'call') for y in subterms(a)) for a in atoms_of(g)): raise Unk('union: added if %s' % bshow(g)[:100])
            chk(g, TRUE, 'union: an element is added', e)
    r.ob(TG, 'union of two sets', union)
    def has(F, s, x, g):
        """the ways to ask whether s holds x, as they show in g"""
        c = []
        for a in atoms_of(g):
            for y in subterms(a):
                if y.op in ('pcall', 'rcall', 'call') and str(y.a[0]).startswith('std::set::'):
                    m = str(y.a[0])[len('std::set::'):]
                    if m not in ('contains', 'count', 'find'): raise Unk('asks %s' % m)
                    if y.a[1] is s and y.a[2] is x:
                        if m == 'contains': c.append(atom(a) if a is y else None)
                        elif m == 'count':
                            kk, d = lin_of(a.a[0])
                            if a.op == 'eq0' and d and set(d) == {y}: c.append(bnot(atom(a)) if kk == 0 else atom(a) if abs(kk) == 1 else None)
                            elif a.op == 'lt0' and set(d) == {y}: c.append(bnot(atom(a)) if d[y] == 1 and kk == -1 else atom(a) if d[y] == -1 and kk == 0 else None)
                            else: c.append(None)
                        else: c.append(bnot(atom(a)) if a.op in ('eq0', 'peq') else None)
        c = [z for z in c if z is not None]
        return c
    def inter():
        F = k('k_std_and'); what = 'intersection of two sets'; A, B = F.A(0), F.A(1)
        ins, out = parts(F, what)
        if out or len(ins) != 1: raise Unk('intersection: in several steps')
        o, x, g, e = ins[0]
        if o not in (A, B): raise Unk('intersection: %s' % show(o)[:60])
        if x is None: raise Bad('intersection: everything of one set is kept', e)
        other = B if o is A else A
        c = has(F, other, x, g)
        if not c:
            if any(y.op in ('pcall', 'rcall', 'call') and (y.a[1:2] != (o,) ) for a in atoms_of(g) for y in subterms(a)): raise Unk('intersection: kept if %s' % bshow(g)[:100])
            raise Bad('intersection: an element is kept without asking the other set', e)
        chk(g, c[0], 'intersection: an element is kept', e)
    r.ob(TG, 'intersection of two sets', inter)
    def rem():
        F = k('k_std_remove'); what = 'removing an element'; A = F.A(0); v = fld(F.A(1), 'f0')
        ins, out = parts(F, what)
        if len(ins) != 1: raise Unk('remove: in several steps')
        o, x, g, e = ins[0]
        if o is not A: raise Unk('remove: %s' % show(o)[:60])
        if x is None:
            if not out:
                if F.foreign(): raise Unk('remove: %s' % F.foreign())
                raise Bad('remove: the element stays', e)
            if len(out) > 1: raise Unk('remove: erases twice')
            val(out[0][0], v, 'remove: the element erased', out[0][2]); chk(out[0][1], TRUE, 'remove: the element is erased', out[0][2]); return
        if out: raise Unk('remove: mixed')
        chk(g, ne(x, v), 'remove: an element is kept', e)
    r.ob(TG, 'removing an element from a set', rem)
    def filt():
        F = k('k_std_filter'); what = 'filter of a set'; A = F.A(0)
        ins, out = parts(F, what)
        if out or len(ins) != 1: raise Unk('filter: in several steps')
        o, x, g, e = ins[0]
        if o is not A: raise Unk('filter: %s' % show(o)[:60])
        if x is None: raise Unk('filter: all kept first')
        p = F.one(F.calls('UPredL::operator()'), 'the test')
        if F.under(p) != F.under(e): raise Unk('filter: loops')
        if F.S(p.args[1]) is not x: raise (Unk if opaque(F.S(p.args[1])) else Bad)('filter: another element is tested')
        ok = F.v.SB(F.g.tobool(p.ret) if not isinstance(p.ret, Bdd) else p.ret)
        chk(g, ok, 'filter: an element is kept', e)
    r.ob(TG, 'filter of a set', filt)
    def fromv():
        F = k('k_std_from'); what = 'set of a range of numbers'; v = F.A(0); res = F.S(F.g.args[0])
        e = F.one(F.calls('GNSet::insert'), 'adding a number')
        if F.S(e.args[0]) is not res: raise Unk('setFrom: other set')
        us = F.under(e)
        if len(us) != 1: raise Unk('setFrom: loops')
        t = us[0]
        if t.kind != 'idx': raise Unk('setFrom: loop %s' % t)
        if t.early: raise stops(F, t)('setFrom: the loop may stop early', e)
        g = F.gate(e)
        if g is not TRUE and all(y.op in ('lin', 'c', 'eq0', 'lt0', 'sext', 'zext', 'trunc') or y is t.phi for a in atoms_of(g) for y in subterms(a)): raise Bad('setFrom: some numbers are not added (only if %s)' % bshow(g)[:100], e)
        every(F, e, 'setFrom: a number is added')
        def field(x): return [y for y in subterms(x) if y.op == 'fld' and y.a[0] is v]
        lo, hi, x = uncast(F.S(t.lo)), uncast(F.S(t.hi)), uncast(F.S(e.args[1]))
        if x is not t.phi:
            kk, d = lin_of(x)
            raise (Bad if set(d) == {t.phi} else Unk)('setFrom: adds %s' % show(x)[:80])
        for nm, b, first in (('starts', lo, True), ('stops', hi, False)):
            kk, d = lin_of(b); y = list(d)
            if len(y) == 1 and d[y[0]] == 1 and y[0].op == 'fld' and y[0].a[0] is v and (y[0].a[1] == 'f0') == first:
                if kk: raise Bad('setFrom: %s %+d off the range' % (nm, kk), e)
            else: raise Unk('setFrom: %s at %s' % (nm, show(b)[:60]))
    r.ob(TG, 'set of a range of numbers', fromv)
