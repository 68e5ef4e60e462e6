"""The list of nodes of a diagram and the array holding a layer."""
from rules import *
from rules_val import loopgate
from rules_cont import *
import rules_cont
def fin(F, obj, rl):
    """like rules_cont.fin; cells of an array are never fields of the object"""
    ss = [e for e in F.stores() if F.lv(e) is fld(obj, rl)]
    if any(F.under(e) for e in ss): return rules_cont.fin(F, obj, rl)
    v = fld(obj, rl)
    for e in sorted(ss, key=lambda e: e.idx):
        g = F.gate(e)
        v = ite([(band(g, h), w) for h, w in ite_cases(F.val(e)) if band(g, h) is not FALSE] + [(band(bnot(g), h), w) for h, w in ite_cases(v) if band(bnot(g), h) is not FALSE])
    return v

class After:
    """what straight-line code leaves behind in one case (care decides every condition that matters)"""
    def __init__(self, F, care, ren=(), ctx=''):
        self.F = F; self.care = care; self.w = {}; self.ev = {}
        def R(t):
            for a, b in ren: t = subst(F.g, t, a, b)
            return t
        self.R = R
        for e in sorted(F.stores(), key=lambda e: e.idx):
            if psplit(e.ptr)[0].op == 'alloca' or F.under(e): continue
            g = R(F.gate(e)) if False else F.gate(e)
            if not satis(band(g, care)): continue
            if not entails(care, g):
                op = [a for a in atoms_of(g) if a not in set(atoms_of(care))]
                raise Unk('%s: condition %s' % (ctx, bshow(g)[:150]))
            l = R(pick(F.lv(e), care)); v = R(pick(F.val(e), care))
            if l.op == 'ite': raise Unk(ctx + ': place written')
            if v.op in ('fld', 'at') and entails(care, isnull(v)): v = NULL
            self.w[l] = v; self.ev[l] = e
    def __call__(self, l): return self.w.get(l, l)
    def expect(self, exp, ctx, free=()):
        for l, v in exp.items():
            got = self(l)
            if got is v: continue
            if v.op == 'c' and got.op == 'c' and got.a == v.a: continue
            if opaque(got): raise Unk(ctx)
            raise Bad('%s: %s becomes %s, should be %s' % (ctx, show(l)[:60], show(got)[:60], show(v)[:60]), self.ev.get(l))
        for l, v in self.w.items():
            if l not in exp and l not in free and v is not l: raise Bad('%s: changes %s' % (ctx, show(l)[:80]), self.ev[l])

def only(xs, what):
    if len(xs) != 1: raise Unk('%s: %d candidates' % (what, len(xs)))
    return xs[0]
def nodeof(F, k):
    p = F.A(k)
    return fld(p, 'f0')

@rule('C21', 'C04', 'C08', 'C10', 'C15')
def anlist(r):
    TG = 'C21 C04 C08 C15'
    NX, PV, TL = 'ANode._next', 'ANode._prev', 'ANList._tail'
    def byval(F):
        """the node passed by value"""
        ps = set()
        for e in F.stores():
            for t in (F.lv(e), F.val(e)):
                for s in subterms(t):
                    if s.op == 'fld' and s.a[1] == 'f0' and s.a[0].op in ('alloca', 'arg') and s.a[0] is not F.A(0): ps.add(s)
        if len(ps) != 1: raise Unk('node given')
        return ps.pop()
    def push():
        F = k(r, 'k_an_push'); me = F.A(0); n = byval(F); H, Tl = fld(me, 'f0'), fld(me, TL)
        fresh = {fld(n, NX): NULL, fld(n, PV): NULL}
        care = band(isnull(H), isnull(Tl))
        a = After(F, care, (), 'push_back')
        a.w = {l: (v if not (l in fresh and v is NULL) else l) for l, v in a.w.items()}
        a.expect({H: n, Tl: n}, 'push_back on an empty list', free=fresh)
        for l in fresh:
            if a(l) is not l: raise Bad('push_back on an empty list: %s becomes %s' % (show(l), show(a(l))[:60]), a.ev[l])
        care = band(bnot(isnull(H)), bnot(isnull(Tl)))
        a = After(F, care, (), 'push_back')
        if a(fld(n, NX)) is NULL: a.w.pop(fld(n, NX))
        a.expect({Tl: n, fld(Tl, NX): n, fld(n, PV): Tl}, 'push_back')
    r.ob(TG, 'push_back adds the node at the end', push)
    def pop():
        F = k(r, 'k_an_pop'); me = F.A(0); H, Tl = fld(me, 'f0'), fld(me, TL); P = fld(Tl, PV)
        care = band(isnull(P), bnot(isnull(Tl)), bnot(isnull(H)), eq(H, Tl), isnull(fld(Tl, NX)))
        a = After(F, care, [(H, Tl)] if False else (), 'pop_back'); a.w = {l: (NULL if v is P else v) for l, v in a.w.items()}
        if a(fld(H, NX)) is NULL: a.w.pop(fld(H, NX), None)
        if a(fld(H, PV)) is NULL: a.w.pop(fld(H, PV), None)
        a.expect({H: NULL, Tl: NULL, fld(Tl, NX): NULL, fld(Tl, PV): NULL} if a(fld(Tl, PV)) is not fld(Tl, PV) else {H: NULL, Tl: NULL, fld(Tl, NX): a(fld(Tl, NX))}, 'pop_back of the only node', free=(fld(Tl, NX),))
        care = band(bnot(isnull(P)), bnot(isnull(Tl)), bnot(isnull(H)), ne(H, Tl), isnull(fld(Tl, NX)))
        a = After(F, care, (), 'pop_back')
        a.expect({Tl: P, fld(P, NX): NULL, fld(Tl, NX): NULL, fld(Tl, PV): NULL} if a(fld(Tl, NX)) is not fld(Tl, NX) else {Tl: P, fld(P, NX): NULL, fld(Tl, PV): NULL}, 'pop_back')
    r.ob(TG, 'pop_back takes the last node out', pop)
    def remove():
        F = k(r, 'k_an_remove'); me = F.A(0); n = byval(F); H, Tl = fld(me, 'f0'), fld(me, TL); P, N = fld(n, PV), fld(n, NX)
        for p in (0, 1):
            for x in (0, 1):
                ctx = 'remove (%s)' % {(0, 0): 'the only node', (0, 1): 'the first node', (1, 0): 'the last node', (1, 1): 'a node inside'}[(p, x)]
                care = band(bnot(isnull(H)), bnot(isnull(Tl)), bnot(isnull(n)))
                care = band(care, bnot(isnull(P)) if p else isnull(P), bnot(isnull(N)) if x else isnull(N))
                care = band(care, ne(n, H) if p else eq(n, H), ne(n, Tl) if x else eq(n, Tl))
                ren = []
                a = After(F, care, ren, ctx)
                z = lambda v: NULL if (v is P and not p or v is N and not x) else v
                a.w = {l: z(v) for l, v in a.w.items()}
                # head is the node itself, tail likewise
                w = {}
                for l, v in a.w.items():
                    if not p and l.op == 'fld' and l.a[0] is H: l = fld(n, l.a[1])
                    if not x and l.op == 'fld' and l.a[0] is Tl: l = fld(n, l.a[1])
                    w[l] = v
                    if l not in a.ev: a.ev[l] = None
                a.w = w
                exp = {fld(n, PV): NULL, fld(n, NX): NULL}
                free = ()
                if p: exp[fld(P, NX)] = N if x else NULL
                else: exp[H] = N if x else NULL
                if x: exp[fld(N, PV)] = P if p else NULL
                else: exp[Tl] = P if p else NULL
                if not p and a(P) is P: exp.pop(P, None)
                if not x and a(N) is N: exp.pop(N, None)
                a.expect(exp, ctx, free)
    r.ob(TG, 'remove takes exactly the given node out, the others stay linked', remove)
    def small():
        F = k(r, 'k_an_clear'); me = F.A(0)
        val(fin(F, me, 'f0'), NULL, 'clear: first'); val(fin(F, me, TL), NULL, 'clear: last')
        F = k(r, 'k_an_front'); retis(F, fld(F.A(0), 'f0'), 'front')
        F = k(r, 'k_an_back'); retis(F, fld(F.A(0), TL), 'back')
        F = k(r, 'k_an_size'); t = chain(F, 'size')
        v = F.retval(); L = F.g.loops[t.h]
        if v not in L.phis: raise Unk('size')
        val(F.S(L.phis[v][1]), const(0), 'size: start'); val(F.S(v.info['back']), add(v, const(1)), 'size: counting')
    def chain(F, ctx):
        ts = F.loops()
        if len(ts) != 1 or ts[0].kind != 'chain': raise Unk('walk')
        t = ts[0]
        if t.cont_obj is not fld(F.A(0), 'f0') or t.cont_role != NX: raise (Bad('%s: walks along %s from %s' % (ctx, t.cont_role, show(t.cont_obj)[:60])) if not opaque(t.cont_obj) else Unk('walk'))
        if t.early: raise Bad(ctx + ': may stop early')
        return t
    r.ob(TG, 'size, front, back and clear agree with the contents', small)
    def itera():
        F = k(r, 'k_an_iter'); t = chain(F, 'iteration')
        c = F.one([e for e in F.events if e.kind == 'call' and e.name.startswith('UFold')], 'visit')
        chk(F.gate(c), TRUE, 'iteration: visiting', c); val(F.a(c, 2), t.elem, 'iteration: node', c)
    r.ob('C21', 'iteration visits every node once, in order', itera)

@rule('C21', 'C08', 'C09', 'C10')
def ndarray(r):
    TG = 'C21 C08 C09 C10'
    S, ST, MX, HO = ['NDArray.' + x for x in ('_sz', '_st', '_mx', '_holes')]
    def byval(F): return nd_given(F)
    def cellix(F, e):
        l = F.lv(e)
        out = None
        for g, v in ite_cases(l):
            b = ix = None
            if v.op == 'at':
                b, ix = v.a
                if b.op == 'adr' and re.match(r'f-?\d+$', b.a[1]) and int(b.a[1][1:]) % 8 == 0: ix = add(ix, const(int(b.a[1][1:]) // 8)); b = b.a[0]
            elif v.op == 'fld' and re.match(r'f\d+$', v.a[1]) and v.a[0].op != 'alloca': b, ix = v.a[0], const(int(v.a[1][1:]) // 8)
            else: return None
            if out is not None and out[1] is not ix: return None
            out = ((out[0] if out else []) + [(g, b)], ix)
        return (ite(out[0]), out[1]) if out else None
    def value_given(F):
        return fld([a for a in F.g.args if False] or None, 'f0')
    def pushb(F, me, care, ctx):
        sz, mx, tab = fld(me, S), fld(me, MX), fld(me, 'f0')
        val(fin(F, me, S), add(sz, const(1)), ctx + ': size', care=care); val(fin(F, me, ST), fld(me, ST), ctx + ': start', care=care); val(fin(F, me, HO), fld(me, HO), ctx + ': holes', care=care)
        d = fin(F, me, 'f0'); m = fin(F, me, MX); fullc = eq(sz, mx)
        for g, v in ite_cases(d):
            c = band(g, care)
            if not satis(c): continue
            if v is tab:
                if satis(band(c, fullc)): raise Bad('%s: no room is made although the array is full' % ctx)
                continue
            a = alloc_of(F, v)
            if a is None: raise Unk('cells')
            n = newarr(F, a)[1]
            val(m, n, ctx + ': capacity', a, care=c)
            c0, dd = lin_of(n)
            if set(dd) != {mx} or not (dd[mx] >= 2 and c0 >= 0 or dd[mx] == 1 and c0 >= 1): raise (Bad('%s: room for %s nodes' % (ctx, show(n)[:60]), a) if set(dd) <= {mx, sz} and not opaque(n) else Unk('capacity'))
            loops = [(e, i) for e, i in stores_to(F, v) if F.under(e) and F.val(e) is not const(0) and F.val(e) is not NULL]
            if not loops and any(F.under(e) and F.val(e) not in (NULL, const(0)) for e in F.stores()): raise Unk('carrying over')
            if not loops and not bulk(F): raise Bad('%s: the nodes are not carried over' % ctx, a)
            if len(loops) > 1: raise Unk('carrying over')
            if loops:
                e, i = loops[0]; t = F.under(e)[-1]; idxloop(F, t, ctx)
                if i is not t.phi: raise Unk('index')
                val(F.val(e), at(tab, t.phi), ctx + ': node carried over', e); chk(F.gate(e), TRUE, ctx + ': carrying over', e)
                lo, hi = F.S(t.lo), F.S(t.hi)
                if lo not in (const(0), fld(me, ST)): raise (Bad('%s: carrying over starts at %s' % (ctx, show(lo)), e) if not opaque(lo) else Unk('start'))
                if hi not in (sz, mx): raise (Bad('%s: carrying over ends at %s' % (ctx, show(hi)), e) if not opaque(hi) else Unk('end'))
            else:
                bs = [e for e in bulk(F) if not elsewhere(F, e, v)]
                if len(bs) != 1 or bs[0].kind == 'call': raise Unk('block')
                block(F, bs[0], v, const(0), sz, lambda i: at(tab, i), ctx + ': carrying over', None, (mx,), (), ())
        ss = []
        for e in F.stores():
            if F.under(e): continue
            cx = cellix(F, e)
            if cx and satis(band(F.gate(e), care)) and all(b is tab or alloc_of(F, b) is not None for _, b in ite_cases(cx[0])): ss.append((e, cx))
        if len(ss) != 1: raise (Bad(ctx + ': the node is not stored') if not ss else Unk('stores'))
        e, (b, ix) = ss[0]
        chk(F.gate(e), care, ctx + ': storing', e) if not entails(care, F.gate(e)) else None
        if not isbase_under(b, d, care): raise Bad(ctx + ': the node is stored in the old cells', e)
        val(ix, sz, ctx + ': place', e); given(F, e, ctx)
    def isbase_under(b, d, care):
        for g, v in ite_cases(b):
            for h, w in ite_cases(d):
                if v is not w and satis(band(g, h, care)): return False
        return True
    def given(F, e, ctx):
        v = F.val(e)
        if not (v.op == 'fld' and v.a[1] == 'f0' and v.a[0].op in ('alloca', 'arg') and v.a[0] is not F.A(0)): raise (Unk('node') if opaque(v) else Bad('%s: stores %s' % (ctx, show(v)[:60]), e))
    def push():
        F = k(r, 'k_nd_push'); pushb(F, F.A(0), TRUE, 'push_back')
    r.ob(TG, 'layer: push_back adds the node at the end and keeps the others', push)
    def pushf():
        F = k(r, 'k_nd_pushf'); me = F.A(0); st, tab = fld(me, ST), fld(me, 'f0')
        room = bnot(cmp_lt0(add(st, const(-1))))
        ss = [(e, cellix(F, e)) for e in F.stores() if not F.under(e) and cellix(F, e) and satis(band(F.gate(e), room)) and cellix(F, e)[0] is tab]
        e, (b, ix) = only(ss, 'storing')
        val(ix, add(st, const(-1)), 'push_front: place', e); given(F, e, 'push_front')
        if not entails(room, F.gate(e)): raise Bad('push_front: the node may not be stored', e)
        val(fin(F, me, ST), add(st, const(-1)), 'push_front: start', care=room); val(fin(F, me, S), fld(me, S), 'push_front: end', care=room); val(fin(F, me, HO), fld(me, HO), 'push_front: holes', care=room)
    r.ob('C21 C08 C10', 'layer: push_front adds the node at the front', pushf)
    def skipper(F, t, tab, sz, ctx):
        """t walks on until the end or a node"""
        L = F.g.loops[t.h]
        ps = [p for p in L.phis if isinstance(p, T) and p.info.get('back') is not None and add(p.info['back'], p, -1) is const(1)]
        if len(ps) != 1: raise Unk(ctx + ': walk')
        p = ps[0]
        ex = bor(*[F.v.SB(x[2]) for x in t.exits])
        exp = bor(bnot(cmp_lt0(add(p, sz, -1))), bnot(isnull(at(tab, p))))
        p1 = add(p, const(1))
        if same(ex, bor(bnot(cmp_lt0(add(p1, sz, -1))), bnot(isnull(at(tab, p1))))): return p1, add(F.S(L.phis[p][1]), const(1))
        if not same(ex, exp):
            if any(a.op == 'phi' for a in atoms_of(ex)): raise Unk(ctx + ': walk ends')
            raise Bad('%s: skipping ends if [%s], should if [%s]' % (ctx, bshow(ex)[:150], bshow(exp)[:150]))
        return p, F.S(L.phis[p][1])
    def holes(F, t, p, me, ctx):
        hs = [e for e in F.stores(HO) if t in F.under(e)]
        if not hs: raise Bad(ctx + ': skipped holes stay counted')
        h = F.one(hs, 'holes'); val(F.val(h), add(fld(me, HO), const(-1)), ctx + ': holes', h); chk(F.gate(h), isnull(at(fld(me, 'f0'), p)), ctx + ': counting a skipped hole', h)
    def front():
        F = k(r, 'k_nd_front'); me = F.A(0)
        t = only(F.loops(), 'walk'); p, i = skipper(F, t, fld(me, 'f0'), fld(me, S), 'front'); val(i, fld(me, ST), 'front: walk starts')
        retis(F, at(fld(me, 'f0'), p), 'front')
        s = fin(F, me, ST)
        if s is not fld(me, ST):
            val(s, p, 'front: start'); holes(F, t, p, me, 'front')
        elif F.stores(HO): raise Bad('front: holes not counted any more are still there', F.stores(HO)[0])
        F = k(r, 'k_nd_popf'); me = F.A(0)
        t = only(F.loops(), 'walk'); p, i = skipper(F, t, fld(me, 'f0'), fld(me, S), 'pop_front'); val(i, fld(me, ST), 'pop_front: walk starts')
        val(fin(F, me, ST), add(p, const(1)), 'pop_front: start'); holes(F, t, p, me, 'pop_front'); val(fin(F, me, S), fld(me, S), 'pop_front: end')
        for e in F.stores():
            cx = cellix(F, e)
            if cx and cx[0] is fld(me, 'f0') and cx[1] is not p: raise Bad('pop_front: writes place %s' % show(cx[1])[:60], e)
        for e in F.stores(HO):
            if not F.under(e): raise Bad('pop_front: the popped place is counted as a hole', e)
    r.ob(TG, 'layer: front and pop_front give and take the first node', front)
    def small():
        F = k(r, 'k_nd_clear'); me = F.A(0)
        for f in (S, ST, HO): val(fin(F, me, f), const(0), 'clear: ' + f)
        F = k(r, 'k_nd_size'); me = F.A(0); retis(F, add(add(fld(me, S), fld(me, ST), -1), fld(me, HO), -1), 'size')
        F = k(r, 'k_nd_get'); retis(F, at(fld(F.A(0), 'f0'), F.A(1)), '[]')
        F = k(r, 'k_nd_new'); me = F.A(0)
        for f in (S, ST, HO): val(fin(F, me, f), const(0), 'new: ' + f)
        val(fin(F, me, MX), F.A(1), 'new: capacity'); a = alloc_of(F, fin(F, me, 'f0'))
        if a is None: raise Unk('cells')
        val(newarr(F, a)[1], F.A(1), 'new: cells', a)
    r.ob(TG, 'layer: size, clear and [] agree with the contents', small)
    def erase():
        F = k(r, 'k_nd_erase'); it = F.A(0); nd = fld(it, 'f0'); num = fld(it, 'iterator._num')
        ss = [(e, cellix(F, e)) for e in F.stores() if cellix(F, e) and cellix(F, e)[0] is fld(nd, 'f0')]
        e, (b, ix) = only(ss, 'erasing') if ss else (None, (None, None))
        if e is None: raise Bad('erase: the place is not emptied')
        val(ix, num, 'erase: place', e); val(F.val(e), NULL, 'erase: place', e); chk(F.gate(e), TRUE, 'erase', e)
        if not F.stores(HO): raise Bad('erase: the hole is not counted', e)
        h = only(F.stores(HO), 'holes')
        val(F.val(h), add(fld(nd, HO), const(1)), 'erase: holes', h)
        F = k(r, 'k_nd_erase2'); nd, it = F.A(0), F.A(1)
        ss = [(e, cellix(F, e)) for e in F.stores() if cellix(F, e) and cellix(F, e)[0] is fld(nd, 'f0')]
        if not ss: raise Bad('erase: the place is not emptied')
        e, (b, ix) = only(ss, 'erasing'); val(F.val(e), NULL, 'erase: place', e)
        if ix not in (fld(it, 'f8'), fld(it, 'iterator._num')): raise (Unk('place') if opaque(ix) else Bad('erase: empties place %s' % show(ix), e))
        h = F.one([x for x in F.stores(HO)], 'holes'); val(F.val(h), add(fld(nd, HO), const(1)), 'erase: holes', h)
        F = k(r, 'k_nd_cut'); me = F.A(0)
        t = only(F.loops(), 'walk'); p, i = skipper(F, t, fld(me, 'f0'), fld(me, S), 'at'); val(i, F.A(1), 'at: place')
        val(fin(F, me, S), p, 'eraseSuffix: new end'); val(fin(F, me, ST), fld(me, ST), 'eraseSuffix: start'); val(fin(F, me, HO), fld(me, HO), 'eraseSuffix: holes')
    r.ob('C21 C08 C09', 'layer: erasing takes out exactly what it should', erase)
    def itera():
        F = k(r, 'k_nd_iter'); me = F.A(0); tab, sz = fld(me, 'f0'), fld(me, S)
        c = F.one([e for e in F.events if e.kind == 'call' and e.name.startswith('UFold')], 'visit')
        ts = F.under(c)
        if len(ts) != 1: raise Unk('nest')
        t = ts[0]; L = F.g.loops[t.h]; chk(F.gate(c), TRUE, 'iteration: visiting', c)
        x = F.a(c, 2)
        if x.op != 'at' or x.a[0] is not tab or x.a[1] not in L.phis: raise Unk('node')
        p = x.a[1]
        sk = {}
        for u in F.loops():
            if u is t: continue
            q, i = skipper(F, u, tab, sz, 'iteration'); sk[q] = (i, u)
        b = F.S(p.info['back'])
        if b not in sk:
            if all(x is p for x in subterms(b) if x.op in OPAQUE): raise Bad('iteration: next place is %s, whether or not a node is there' % show(b)[:100], c)
            raise Unk('step')
        val(sk[b][0], add(p, const(1)), 'iteration: next place', c)
        i = F.S(L.phis[p][1]); n = 0
        while i in sk and n < 5: last = i; i = sk[i][0]; n += 1
        if not n: raise Unk('start')
        val(i, fld(me, ST), 'iteration: starts', c)
        ex = bor(*[F.v.SB(y[2]) for y in t.exits])
        ends = [a for a in atoms_of(ex)]
        if len(ends) != 1: raise Unk('end')
        ok = False
        for q, (i0, u) in list(sk.items()) + [(sz, (sz, None))]:
            if i0 is sz and same(ex, eq(p, q)): ok = True
        if not ok: raise Unk('end')
        hs = F.stores(ST)
        if hs:
            s = fin(F, me, ST)
            if s not in sk: raise Unk('start moved')
            val(sk[s][0], fld(me, ST), 'iteration: start moved', hs[0]); holes(F, sk[s][1], s, me, 'iteration')
        elif F.stores(HO): raise Bad('iteration: the number of holes changes', F.stores(HO)[0])
    r.ob(TG, 'layer: iteration visits every node once, in order', itera)
