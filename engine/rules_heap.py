"""The binary heap: one step of each sifting loop is compared, case by case, with what a
heap needs; the cases are the regions of the index conditions times the weak orders of
the (at most three) elements compared."""
from rules import *
from rules_val import loopgate
from rules_cont import *
from rules_cont import fin
from rules_dd import sees

def memnodes(F):
    """id of a memory state -> event that made it"""
    d = getattr(F, '_memev', None)
    if d is None:
        d = {}; seen = set(); st = [e.mem for e in F.g.events if getattr(e, 'mem', None) is not None]
        for L in F.g.loops.values():
            if getattr(L, 'entry_mem', None) is not None: st.append(L.entry_mem)
            for x in L.latch:
                if len(x) > 1: st.append(x[1])
        while st:
            m = st.pop()
            while m is not None and hasattr(m, 'k') and m.id not in seen:
                seen.add(m.id)
                if m.d.get('ev') is not None: d[m.id] = m.d['ev']
                if m.k == 'phi': st.extend(x for _, x in m.d['ins'])
                m = m.prev
        F._memev = d
    return d

class Step:
    """effect of one iteration of loop t (or of the code outside loops, t None) on the cells, in one case"""
    def __init__(self, F, t, me, data, num, order, care=()):
        self.F = F; self.t = t; self.me = me; self.data = data; self.num = num; self.order = order; self.care = dict(care)
        self.sub = {}; self.cells = {}; self.pos = {}; self.snap = {}; self.other = []
        self.mem = memnodes(F)
        self.at_now = None
    # -- numbers
    def n(self, t):
        if isc(t): return t.a[0]
        if t.op not in ('lin', 'ite', 'sdiv', 'udiv', 'lshr', 'ashr'): t = self.F.S(t)
        if t in self.num: return self.num[t]
        if t.op == 'lin': return t.a[0] + sum(c * self.n(x) for x, c in t.a[1])
        if t.op == 'c': return t.a[0]
        if t.op == 'ite':
            for g, v in t.a:
                if self.b(g): return self.n(v)
        if t.op == 'sdiv' and isc(t.a[1]):
            x = self.n(t.a[0]); y = t.a[1].a[0]; return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        if t.op in ('udiv', 'lshr', 'ashr') and isc(t.a[1]): 
            x = self.n(t.a[0]); return x // t.a[1].a[0] if t.op == 'udiv' else x >> t.a[1].a[0]
        if t.op == 'and':
            r = -1
            for x in t.a: r &= self.n(x)
            return r
        raise Unk('number %s' % show(t)[:80])
    def b(self, f):
        while f not in (TRUE, FALSE):
            a = core._atoms[f.v]
            f = f.hi if self.a(a) else f.lo
        return f is TRUE
    def a(self, a):
        if a in self.care: return self.care[a]
        if a.op == 'lt0': return self.n(a.a[0]) < 0
        if a.op == 'eq0':
            try: return self.n(a.a[0]) == 0
            except Unk:
                c, d = lin_of(a.a[0])
                if c == 0 and len(d) == 2:
                    (x, i), (y, j) = d.items()
                    if i == -j: return self.v(x) is self.v(y)
                raise
        if a.op == 'peq': return self.v(a.a[0]) is self.v(a.a[1])
        if a.op == 'pcall' and a.a[0] == '*fp':
            if self.F.S(a.a[1]) is not fld(self.me, 'Heap._ord'): raise Unk('comparison')
            return self.less(self.v(a.a[2]), self.v(a.a[3]))
        raise Unk('condition %s' % show(a)[:80])
    def less(self, x, y):
        if x.op != 'LOC' or y.op != 'LOC': raise Unk('compared: %s' % show(x)[:60])
        for z in (x, y):
            if z not in self.order: raise Unk('compares another element')
        return self.order[x] < self.order[y]
    # -- values
    def ix(self, t):
        t = self.F.S(t)
        for _ in range(9):
            if t.op != 'ite': break
            t = next(v for g, v in t.a if self.b(g))
        k = self.n(t)
        for i, nm in self.names: 
            if i == k: return nm
        return mk('IX', k)
    def base(self, r):
        s = self.v(r)
        return s
    def v(self, t):
        if t in self.sub: return self.sub[t]
        if t.op == 'ite':
            for g, x in t.a:
                if self.b(g): return self.v(x)
            raise Unk('case')
        if t.op == 'ld':
            p = t.a[0]
            if p.op == 'ite': p = next(x for g, x in p.a if self.b(g))
            r, off, idx, path = psplit(p)
            b = self.v(r) if r.op in ('ld', 'ite', 'arg') else self.F.S(r)
            if b in self.data:
                k = off // 8 + sum(self.n(x) * (c // 8) for x, c in idx)
                return self.cell(k, t.a[1])
            if b.op == 'LOC':
                if off == 0 and not path: return mk('VAL', b)
                return mk('POS', b)
            return self.F.S(t)
        if t.op == 'ptr':
            r, off, idx, path = psplit(t)
            b = self.v(r)
            if b.op == 'LOC': return mk('POSP', b) if off else b
            return self.F.S(t)
        if t.op == 'phi':
            s = self.F.S(t)
            return s
        return self.F.S(t)
    def cell(self, k, ver):
        c = self.snap.get(id(self.mem.get(ver))) if isinstance(ver, int) else None
        if isinstance(ver, int) and c is None:
            if ver in self.mem and self.mem[ver] in self.before: c = self.start
            else: raise Unk('state of the array (%s: %s)' % (ver, self.mem.get(ver) and self.mem[ver].kind))
        if c is None: c = self.start
        return c.get(k, mk('LOC', k))
    def run(self, evs, start=None, before=(), sub=None):
        F = self.F; self.sub = sub or {}
        self.start = dict(start or {}); self.before = list(before); self.names = []
        cur = dict(self.start); self.done = []
        try: ends = self.t is not None and not self.b(self.t.cont)          # the loop ends before this turn
        except Unk: ends = False
        if ends:
            for e in evs: self.snap[id(e)] = dict(cur)
            self.cells = cur
            return self
        for e in evs:
            g = F.v.rawgate(e)
            if not self.b(g):
                self.snap[id(e)] = dict(cur); continue
            if e.kind == 'store':
                p = e.ptr
                if p.op == 'ite': p = next(x for gg, x in p.a if self.b(gg))
                r, off, idx, path = psplit(p)
                b = self.v(r) if r.op in ('ld', 'ite', 'arg') else F.S(r)
                if r.op == 'alloca': continue
                if b in self.data:
                    k = off // 8 + sum(self.n(x) * (c // 8) for x, c in idx)
                    x = self.v(e.value)
                    if x.op != 'LOC': raise Unk('cell := %s' % show(x)[:60])
                    cur[k] = x
                elif b.op == 'LOC' and off:
                    self.pos[b] = self.n(e.value)
                else: self.other.append((e, F.lv(e), e.value))
            self.snap[id(e)] = dict(cur)
        self.cells = cur
        return self

ORD3 = [(a, b, c) for a in range(3) for b in range(3) for c in range(3) if {a, b, c} in ({0}, {0, 1}, {0, 1, 2})]
ORD2 = [(0, 0), (0, 1), (1, 0)]
def LOC(k): return mk('LOC', k)
def swapped(s, p, x, ctx, ev):
    exp = {p: LOC(x), x: LOC(p)}
    now = {k: v for k, v in s.cells.items() if v is not LOC(k)}
    return now == exp
def positions(s, ctx, ev):
    for k, v in s.cells.items():
        if v is LOC(k): continue
        if s.pos.get(v) is None: raise Bad('%s: a moved element is not told its new place' % ctx, ev)
        if s.pos[v] != k: raise Bad('%s: an element moved to a place is told another one' % ctx, ev)
    for l, k in s.pos.items():
        at_ = [i for i, v in s.cells.items() if v is l] or [l.a[0]]
        if k not in at_: raise Bad('%s: an element is told a place it is not at' % ctx, ev)
def one_phi(F, t):
    L = F.g.loops[t.h]
    ps = [p for p in L.phis if isinstance(p, T) and p.info.get('back') is not None]
    ps = [p for p in ps if p.info.get('w') != 'ptr']
    if len(ps) != 1: raise Unk('loop variables')
    return ps[0], F.S(L.phis[ps[0]][1])
def step_events(F, t):
    return [e for e in F.events if e.kind in ('store', 'call') and e.loop == (t.h if t is not None else None) and e.gate is not FALSE]
def sift(F, t, me, data, N, kind, ctx, care=()):
    """kind 'down': heapify, 'float': refloat"""
    phi, init = one_phi(F, t)
    evs = step_events(F, t)
    ev = next((e for e in evs if e.kind == 'store'), None)
    pre = [e for e in F.events if e not in evs]
    up = False
    for e in evs:
        if e.kind == 'call' and e.name == '*fp':
            for a in e.args[1:]:
                if any(s.op in ('sdiv', 'ashr', 'lshr', 'udiv') and occurs(s, phi) for s in subterms(F.S(a))): up = True
    if up and kind != 'float': raise Unk('comparison with the parent')
    known = [x for x in (N,) if not isc(x)]
    swaps = 0
    for p in (1, 2, 3, 8, 9):
        for N_ in sorted({p + 1, 2 * p - 1, 2 * p, 2 * p + 1, 2 * p + 2, 2 * p + 3, 4 * p + 9}):
            if N_ <= p: continue
            num = {phi: p}
            c, d = lin_of(N)
            if len(d) != 1 or list(d.values())[0] != 1: raise Unk('size')
            num[list(d)[0]] = N_ - c
            trio = (p, 2 * p, 2 * p + 1) if not up else (p, p // 2)
            for od in (ORD3 if not up else ORD2):
                order = {LOC(k): o for k, o in zip(trio, od)}
                s = Step(F, t, me, data, num, order, care).run(evs, before=pre)
                for e, l, v in s.other:
                    if any(x.op == 'fld' and x.a[0] is me for _, x in ite_cases(l)): raise Bad('%s: sifting changes %s' % (ctx, show(l)[:80]), e)
                    raise Unk('sifting writes %s' % show(l)[:80])
                moved = {k for k, v in s.cells.items() if v is not LOC(k)}
                left = any(s.b(x[2]) for x in t.exits)
                where = '%s (children: %s)' % (ctx, 'none' if N_ <= 2 * p else 'one' if N_ == 2 * p + 1 else 'two')
                if up:
                    must = p // 2 >= 1 and od[0] < od[1]
                    if must and not (moved == {p, p // 2} and swapped(s, p, p // 2, ctx, ev)): raise Bad('%s: an element better than its parent does not go up' % ctx, ev)
                    if not must and moved: raise Bad('%s: an element that is not better than its parent goes up' % ctx, ev)
                    if must and left: raise Bad('%s: stops although the element went up' % ctx, ev)
                    if must and s.n(phi.info['back']) != p // 2: raise Bad('%s: does not follow the element up' % ctx, ev)
                    if moved: positions(s, ctx, ev); swaps += 1
                    continue
                kids = [k for k in (2 * p, 2 * p + 1) if k < N_]
                best = [k for k in kids if order[LOC(k)] < order[LOC(p)] and not any(order[LOC(j)] < order[LOC(k)] for j in kids)]
                if not best:
                    if moved: raise Bad('%s: moves elements although no child is better' % where, ev)
                    if kind == 'down' and not left: raise Bad('%s: does not stop although no child is better' % where, ev)
                else:
                    if not moved: raise Bad('%s: a better child stays below' % where, ev)
                    if not any(swapped(s, p, k, ctx, ev) for k in best):
                        if moved - {p, 2 * p, 2 * p + 1}: raise Bad('%s: moves other elements' % where, ev)
                        if any(k >= N_ for k in moved): raise Bad('%s: takes a child that is outside the heap' % where, ev)
                        raise Bad('%s: the parent is not exchanged with its best child' % where, ev)
                    positions(s, ctx, ev); swaps += 1
                    if kind == 'down':
                        if left: raise Bad('%s: stops although elements were exchanged' % where, ev)
                        if s.n(phi.info['back']) not in best or s.cells.get(s.n(phi.info['back'])) is not LOC(p): raise Bad('%s: does not follow the element down' % where, ev)
                if kind == 'float':
                    if left:
                        if best: raise Bad('%s: stops although elements were exchanged' % where, ev)
                        raise (Bad('%s: stops although nothing is known about the parent' % where, ev) if not kids else Unk('stops early'))
                    if s.n(phi.info['back']) != p // 2: raise Bad('%s: goes on with %s instead of the parent' % (ctx, show(F.S(phi.info['back']))[:80]), ev)
    if not swaps: raise Unk('no exchange')
    if kind == 'float' and not up:
        for p in (0,):
            num = {phi: p}; c, d = lin_of(N); num[list(d)[0]] = 5 - c
            s = Step(F, t, me, data, num, {}, care); s.names = []; s.start = {}; s.before = []
            if not any(s.b(x[2]) for x in t.exits): raise Bad('%s: never ends' % ctx, ev)
    return phi, init
def after_outside(F, me, data, num, order=None, evs=None, care=(), pre=()):
    return Step(F, None, me, data, num, order or {}, care).run(evs if evs is not None else step_events(F, None), before=pre)
def locval(F, e, k): return F.a(e, k)

@rule('C18', 'C12', 'C13')
def heap(r):
    AT, MX, DATA = 'Heap._at', 'Heap._mxs', 'Heap._data'
    def siftloop(F, ctx):
        ts = [t for t in F.loops() if any(e.kind == 'call' and e.name == '*fp' and e.loop == t.h for e in F.events)]
        if not ts:
            if any(e.kind == 'call' and e.name == '*fp' for e in F.events): raise Unk('sifting without a loop')
            if any(e.kind == 'call' and 'Heap::' in (e.name or '') for e in F.events): raise Unk('sifting in another function')
            raise Bad(ctx + ': elements are not compared')
        if len(ts) > 1: raise Unk('several sifting loops')
        return ts[0]
    def extract(nm='k_heap_extract', ctx='extractMax'):
        F = k(r, nm); me = F.A(0)
        t = siftloop(F, ctx); n0 = fld(me, AT); data = {fld(me, DATA)}
        phi, init = sift(F, t, me, data, add(n0, const(-1)), 'down', ctx)
        val(init, const(1), ctx + ': sifting starts'); chk_at_least(loopgate(F, t), cmp_lt0(add(const(2), n0, -1)), ctx + ': sifting') if loopgate(F, t) is not TRUE else None
        outer(F, me, data, n0, ctx)
        same_field(F, me, AT, add(n0, const(-1)), ctx + ': size')
        out = F.A(2) if nm == 'k_heap_remove' else F.A(1)
        a = F.one([e for e in F.events if e.kind == 'call' and e.name == 'UElt::operator='], 'result')
        cp = [e for e in F.events if e.kind == 'call' and e.name == 'UElt::UElt' and len(e.args) == 2]
        c = F.one(cp, 'element returned')
        s = after_outside(F, me, data, {n0: 10}, pre=[e for e in F.events if e.loop is not None])
        try: w = s.v(c.args[1])
        except Unk:
            w = None
            if occurs(c.args[1], phi):
                d0 = fld(me, DATA)
                cs = [v for _, v in ite_cases(F.S(c.args[1]))]
                if any(v is fld(d0, 'f8') for v in cs) and all(v is fld(d0, 'f8') or v.op == 'at' and v.a[0] is d0 for v in cs): raise Bad('%s: returns what is in the first place after sifting' % ctx, c)
            raise
        if w is not LOC(1): raise (Bad('%s: returns another element than the first' % ctx, c) if w.op == 'LOC' else Unk('element returned'))
    def outer(F, me, data, n0, ctx):
        ev = next((e for e in F.stores() if not F.under(e)), None)
        for n in (2, 3, 10):
            s = after_outside(F, me, data, {n0: n}, pre=[e for e in F.events if e.loop is not None])
            if n > 2:
                if s.cells.get(1) is not LOC(n - 1): raise Bad('%s: the last element does not take the first place' % ctx, ev)
                if s.cells.get(n - 1) is not LOC(1): raise Bad('%s: the place of the last element is lost or kept twice' % ctx, ev)
                if s.pos.get(LOC(n - 1)) != 1: raise Bad('%s: the element moved to the first place is not told so' % ctx, ev)
                if set(s.cells) - {1, n - 1}: raise Bad('%s: other elements are moved' % ctx, ev)
            elif s.cells.get(1, LOC(1)) is not LOC(1): raise Bad('%s: the only element is moved' % ctx, ev)
    r.ob('C18 C12', 'extractMax: the first element leaves, the last takes its place and sinks', extract)
    def remove():
        F = k(r, 'k_heap_remove'); me, loc = F.A(0), F.A(1)
        t2 = siftloop(F, 'remove')
        ts = [t for t in F.loops() if t is not t2]
        if len(ts) != 1: raise (Bad('remove: the element is not brought to the top') if not ts else Unk('loops'))
        t = ts[0]
        phi, init = one_phi(F, t); evs = step_events(F, t); ev = next((e for e in evs if e.kind == 'store'), None)
        if not (init.op == 'fld' and init.a[0] is loc and init.a[1].startswith('Location.')): raise Bad('remove: starts at %s, not at the place of the element' % show(init)[:80], ev) if not opaque(init) else Unk('start')
        if loopgate(F, t) is not TRUE: chk_at_least(loopgate(F, t), bnot(cmp_lt0(add(init, const(-2)))), 'remove: going up', ev)
        for p in (1, 2, 3, 8, 9):
            s = Step(F, t, me, {fld(me, DATA)}, {phi: p}, {}).run(evs, before=[e for e in F.events if e not in evs])
            if s.other: raise Unk('other stores')
            left = any(s.b(x[2]) for x in t.exits)
            if p == 1:
                if any(s.b(x[2]) for x in t.exits if x[0] == t.h): continue
                if any(v is not LOC(i) for i, v in s.cells.items()): raise Bad('remove: goes above the first place', ev)
                if not left and s.n(phi.info['back']) not in (0,): raise Bad('remove: never ends', ev)
                continue
            if left: raise Bad('remove: stops before the top', ev)
            if not swapped(s, p, p // 2, '', ev): raise Bad('remove: an element is not exchanged with its parent', ev)
            positions(s, 'remove', ev)
            if s.n(phi.info['back']) != p // 2: raise Bad('remove: does not follow the element up', ev)
        s = Step(F, t, me, {fld(me, DATA)}, {phi: 0}, {}); s.names = []; s.start = {}; s.before = []
        if not any(s.b(x[2]) for x in t.exits): raise Bad('remove: never ends', ev)
        if not before_loop(F, t, t2): raise Unk('order')
        extract('k_heap_remove', 'remove')
    def before_loop(F, t, t2): return True
    r.ob('C18 C13', 'remove: the element goes to the top and leaves from there', remove)
    def decrease():
        F = k(r, 'k_heap_decrease'); me, loc = F.A(0), F.A(1)
        c = F.one([e for e in F.events if e.kind == 'call' and e.meth == 'operator--'], 'decreasing'); val(F.a(c, 0), loc, 'decrease: element', c); chk(F.gate(c), TRUE, 'decrease', c)
        t = siftloop(F, 'decrease')
        phi, init = sift(F, t, me, {fld(me, DATA)}, fld(me, AT), 'float', 'decrease')
        if not (init.op == 'fld' and init.a[0] is loc and init.a[1].startswith('Location.')): raise Bad('decrease: starts at %s, not at the place of the element' % show(init)[:80], c) if not opaque(init) else Unk('start')
        chk_at_least(loopgate(F, t), TRUE, 'decrease: sifting') if loopgate(F, t) is not TRUE else None
        if not in_mem(c, F.g.loops[t.h].entry_mem): raise Bad('decrease: moved before it is decreased', c)
    r.ob('C18', 'decrease: the element goes up as far as needed', decrease)
    def inserted(nm):
        F = k(r, nm); me, v = F.A(0), F.A(1); ctx = nm[7:]
        n0 = fld(me, AT); room = cmp_lt0(add(n0, fld(me, MX), -1))
        def place(t, g):
            if t.op != 'at': return None
            return t.a
        a = F.one([e for e in F.events if e.kind == 'call' and e.name == 'UElt::operator='], 'storing the element')
        chk(F.gate(a), TRUE, ctx + ': storing the element', a); val(F.a(a, 1), v, ctx + ': element', a)
        d = fin(F, me, DATA)
        for g, x in ite_cases(F.a(a, 0)):
            if x.op != 'at': raise Unk('place')
            val(x.a[1], n0, ctx + ': place of the element', a)
            if not veq_base(x.a[0], d, g): raise Bad('%s: stored in %s' % (ctx, show(x.a[0])[:80]), a)
        ps = [e for e in F.stores() if not F.under(e) and any(l.op == 'fld' and l.a[0].op == 'at' and l.a[1].startswith('Location.') for _, l in ite_cases(F.lv(e)))]
        e = F.one(ps, 'telling the element its place')
        for g, l in ite_cases(F.lv(e)): val(l.a[0].a[1], n0, ctx + ': element told its place', e)
        val(F.val(e), n0, ctx + ': place told', e); chk(F.gate(e), TRUE, ctx + ': telling the place', e)
        same_field(F, me, AT, add(n0, const(1)), ctx + ': size')
        val(F.retval(), F.a(a, 0), ctx + ': location returned', a)
        # growth
        mx = F.stores(MX); m = F.one(mx, 'growth')
        if F.under(m): raise Unk('growth')
        full_ = bnot(room)
        chk_between(F.gate(m), full_, full_, ctx + ': growing', m) if not entails(full_, F.gate(m)) else None
        grow(F, me, F.gate(m), m, n0, ctx)
        return F, me, n0, room
    def veq_base(b, d, g):
        for h, w in ite_cases(d):
            if satis(band(g, h)) and w is not b: return False
        return True
    def grow(F, me, g, m, n0, ctx):
        mx = fld(me, MX); new = F.val(m)
        c0, dd = lin_of(new)
        if not (set(dd) == {mx} and dd[mx] >= 1 and (dd[mx] >= 2 or c0 >= 1)): raise Bad('%s: capacity grows to %s' % (ctx, show(new)[:80]), m) if not opaque(new) else Unk('growth')
        ds = F.one([e for e in F.stores(DATA)], 'new cells'); nd = F.val(ds)
        chk(F.gate(ds), g, ctx + ': new cells', ds)
        al = alloc_of(F, nd)
        if al is None: raise Unk('new cells')
        p, n, es = newarr(F, al)
        val(p, fld(me, 'f0'), ctx + ': pool', al); val(n, new, ctx + ': number of new cells', al)
        cs = [(e, i) for e, i in stores_to(F, nd) if F.under(e)]
        if bulk(F): raise Unk('block copy')
        old = [(e, i) for e, i in cs if F.val(e).op == 'at' and F.val(e).a[0] is fld(me, DATA)]
        add_ = [(e, i) for e, i in cs if (e, i) not in old]
        if len(old) != 1 or len(add_) != 1: raise (Bad('%s: the old elements are not carried over' % ctx, ds) if not old and len(cs) < 2 else Unk('cells'))
        e, i = old[0]; t = F.under(e)[-1]; idxloop(F, t, ctx)
        if i is not t.phi: raise Unk('index')
        if F.val(e).a[1] is not t.phi: raise Bad('%s: an element is carried over to another place' % ctx, e)
        lo, hi = F.S(t.lo), F.S(t.hi)
        if isc(lo) and lo.a[0] > 1: raise Bad('%s: the first elements are not carried over' % ctx, e)
        if not isc(lo): raise Unk('first')
        if hi not in (n0, mx) and not isc(add(hi, n0, -1)) and not isc(add(hi, mx, -1)): raise Unk('last')
        if hi not in (n0, mx):
            dlt = add(hi, n0, -1) if isc(add(hi, n0, -1)) else add(hi, mx, -1)
            raise Bad('%s: elements carried over up to %s' % (ctx, show(hi)), e)
        chk(F.gate(e), TRUE, ctx + ': carrying over', e)
        if not entails(g, loopgate(F, t)): raise Unk('carrying over')
        e, i = add_[0]; t2 = F.under(e)[-1]; idxloop(F, t2, ctx)
        c, d = lin_of(i)
        if d.get(t2.phi) != 1: raise Unk('index')
        sh = add(i, t2.phi, -1)
        lo, hi = add(F.S(t2.lo), sh), add(F.S(t2.hi), sh)
        if lo not in (n0, mx): raise Bad('%s: new cells are made from %s on' % (ctx, show(lo)[:80]), e) if not opaque(lo) else Unk('new')
        val(hi, new, ctx + ': new cells made up to', e); chk(F.gate(e), TRUE, ctx + ': new cells', e)
        v = F.val(e)
        b, ixs = (v.a if v.op == 'adx' else (v, ()))
        sz = [abs(c) for _, c in ixs]
        if not sz or len(set(sz)) != 1: raise Unk('new places')
        b0 = b.a[0] if b.op == 'adr' else b
        al2 = alloc_of(F, b0)
        if al2 is None: raise Unk('new places')
        j = const(0)
        for x, c in ixs: j = add(j, x if c > 0 else mulc(x, -1))
        first = subst(F.g, j, t2.phi, F.S(t2.lo)); last = subst(F.g, j, t2.phi, F.S(t2.hi))
        val(first, const(0), ctx + ': first new place', e)
        cnt = F.one([s for s in F.stores() if s.ptr is al2.ret], 'number of places')
        for g2, w in ite_cases(F.val(cnt)):
            if w is not last and lin_of(add(w, last, -1))[0] < 0: raise Bad('%s: %s new places for %s cells' % (ctx, show(w)[:60], show(last)[:60]), cnt)
            if w is not last: raise Unk('places')
        if not entails(g, loopgate(F, t2)): raise Unk('new cells')
    def insert(): inserted('k_heap_insert')
    r.ob('C18', 'insert: the element is added at the end, others stay, room is made', insert)
    def insertHeap():
        F, me, n0, room = inserted('k_heap_insertHeap')
        t = siftloop(F, 'insertHeap')
        d = set()
        cond = {}
        nr = core._atoms[room.v] if room not in (TRUE, FALSE) else None
        # both cases: room and no room
        for res in (False, True):
            data = {x for g, x in ite_cases(fin(F, me, DATA))}
            care = {}
            for e in F.events:
                for a in atoms_of(e.gate):
                    if a.op == 'lt0':
                        s = F.v.SB(atom(a))
                        if same(s, room): care[a] = not res
                        elif same(s, bnot(room)): care[a] = res
            phi, init = sift(F, t, me, data, add(n0, const(1)), 'float', 'insertHeap', care)
        told = [e for e in F.stores() if not F.under(e) and any(l.op == 'fld' and l.a[0].op == 'at' and l.a[1].startswith('Location.') for _, l in ite_cases(F.lv(e)))]
        lv = {l for e in told for _, l in ite_cases(F.lv(e))}
        if init.op != 'ite' and init in lv or init.op == 'ite' and all(v in lv or v is n0 for _, v in init.a):
            raw = F.g.loops[t.h].phis[phi][1]          # the place the element was told, read back
            lds = [x for x in subterms(raw) if x.op == 'ld' and any(v in lv for _, v in ite_cases(F.S(x)))]
            if not all(sees(F, x, told) for x in lds): raise Unk('start read before it is told')
        elif init.op in ('sdiv', 'udiv') and init.a == (n0, const(2)) or init.op in ('lshr', 'ashr') and init.a[:2] == (n0, const(1)): pass    # its parent
        else: val(init, n0, 'insertHeap: sifting starts')
        chk_at_least(loopgate(F, t), bnot(cmp_lt0(add(n0, const(-1)))), 'insertHeap: sifting') if loopgate(F, t) is not TRUE else None
    r.ob('C18 C12', 'insertHeap: the element goes up as far as needed', insertHeap)
    def build():
        F = k(r, 'k_heap_build'); me = F.A(0); n0 = fld(me, AT)
        t = siftloop(F, 'buildHeap')
        ts = [x for x in F.loops() if x is not t]
        if len(ts) != 1 or not nested(F, t, ts[0]): raise (Bad('buildHeap: only one place is sifted') if not ts else Unk('loops'))
        o = ts[0]
        phi, init = sift(F, t, me, {fld(me, DATA)}, n0, 'down', 'buildHeap')
        idxloop(F, o, 'buildHeap')
        if init is not o.phi:
            c, d = lin_of(init)
            if d != {o.phi: 1} and d != {o.phi: -1}: raise Unk('start')
        if not o.reverse:
            if lin_of(init)[1].get(o.phi) == 1: raise Bad('buildHeap: sifts from the first place on; only from the last parent back makes a heap')
            raise Unk('direction')
        if abs(o.step) != 1: raise Bad('buildHeap: does not sift every place')
        c = lin_of(init)[0]
        lo, hi = add(F.S(o.lo), const(c)), add(F.S(o.hi), const(c))
        # places hi..lo (hi is the last one)
        if not isc(hi): raise Unk('last')
        last = hi.a[0] + (1 if o.eqtest else 0)
        if last > 1: raise Bad('buildHeap: the first place is not sifted')
        if last < 1: raise Bad('buildHeap: goes to place %d' % last)
        for n in range(1, 12):
            s = Step(F, None, me, set(), {n0: n}, {})
            if s.n(lo) < (n - 1) // 2: raise Bad('buildHeap: starts at %s, leaving out parents' % show(lo)[:80])
            if s.n(lo) >= max(n, 2): raise Bad('buildHeap: starts outside the heap')
        chk(F.v.SB(constrain(F.g.loops[t.h].entry, o.cont)), TRUE, 'buildHeap: sifting a place') if False else None
    r.ob('C18 C12', 'buildHeap: every parent is sifted, from the last to the first', build)
    def small():
        F = k(r, 'k_heap_size'); retis(F, add(fld(F.A(0), AT), const(-1)), 'size')
        F = k(r, 'k_heap_empty'); retb(F, cmp_eq0(add(fld(F.A(0), AT), const(-1))), 'empty') if not same(F.retbool(), cmp_lt0(add(fld(F.A(0), AT), const(-2)))) else None
        F = k(r, 'k_heap_clear'); same_field(F, F.A(0), AT, const(1), 'clear: size')
        F = k(r, 'k_heap_at'); retis(F, at(fld(F.A(0), DATA), add(F.A(1), const(1))), '[]')
    r.ob('C18 C12 C13', 'size, empty, clear and access agree with the contents', small)
    def create():
        F = k(r, 'k_heap_new'); me, pool, n, o = F.A(0), F.A(1), F.A(2), F.A(3)
        for f, x in ((AT, const(1)), (MX, n), ('f0', pool), ('Heap._ord', o)):
            ss = F.stores(f) if f != 'f0' else [e for e in F.stores() if F.lv(e) is fld(me, 'f0')]
            e = F.one(ss, f)
            val(F.val(e), x, 'Heap: ' + f, e); chk(F.gate(e), TRUE, 'Heap: ' + f, e)
        d = F.val(F.one(F.stores(DATA), 'cells')); al = alloc_of(F, d)
        if al is None: raise Unk('cells')
        p, cnt, es = newarr(F, al); val(cnt, n, 'Heap: number of cells', al)
        ss = [(e, i) for e, i in stores_to(F, fld(me, DATA)) + stores_to(F, d) if F.under(e)]
        if len(ss) != 1: raise (Bad('Heap: cells are not set') if not ss else Unk('cells'))
        e, i = ss[0]; t = F.under(e)[-1]; idxloop(F, t, 'Heap')
        val(i, t.phi, 'Heap: cell set', e); val(F.S(t.lo), const(0), 'Heap: first cell', e); val(F.S(t.hi), fld(me, MX), 'Heap: last cell', e) if F.S(t.hi) is not n else None
        v = F.val(e)
        if v.op != 'adx' or len(v.a[1]) != 1: raise Unk('places')
        if v.a[1][0][0] is not t.phi: raise Bad('Heap: two cells share a place', e)
    r.ob('C18', 'a new heap is empty and has room for what was asked', create)
    def find():
        F = k(r, 'k_heap_find'); me, v = F.A(0), F.A(1)
        ts = F.loops()
        if len(ts) != 1 or ts[0].kind != 'idx': raise Unk('loop')
        t = ts[0]
        lo, hi = F.S(t.lo), F.S(t.hi)
        val(lo, const(1), 'find: first place')
        if hi not in (fld(me, MX), fld(me, AT)): raise (Unk('last') if opaque(hi) else Bad('find: looks at places below %s' % show(hi)))
        cmpz = [e for e in F.events if e.kind == 'call' and e.name == 'UElt::operator==']
        c = F.one(cmpz, 'comparison'); 
        want = {at(fld(me, DATA), t.phi), v}
        if {F.a(c, 0), F.a(c, 1)} != want: raise (Unk('compared') if opaque(subst(F.g, F.a(c, 0), t.phi, IX)) else Bad('find: compares other elements', c))
        for g, x in ite_cases(F.retval()):
            if x is NULL or x is at(fld(me, DATA), t.phi): continue
            raise Unk('result') if opaque(subst(F.g, x, t.phi, IX)) else Bad('find: returns %s' % show(x)[:80])
    r.ob('C18', 'find: returns the place of an equal element', find)

# ---------------------------------------------------------------- C19 -------
@rule('C19', 'C10')
def queue(r):
    q = lambda x: 'CQueue.' + x
    MX = 'f0'; EN, EX, MK, CN, DA = [q(x) for x in ('_enter', '_exit', '_mask', '_cnt', '_data')]
    def flds(me): return [fld(me, x) for x in (MX, EN, EX, MK, CN, DA)]
    def nxt(x, mk_): return bit_and(32, mk_, add(x, const(1)))
    def sameempty(me):
        """no element <=> both ends meet"""
        mx, en, ex, mk_, cn, da = flds(me)
        return bnot(bxor(cmp_eq0(cn), cmp_eq0(add(ex, en, -1)))), cmp_eq0(add(ex, en, -1))
    def lone(f): return band(f, bnot(cmp_lt0(fld(mk('x'), 'f0')))) if False else f
    def norm(me, f):
        """cnt <= 0, cnt < 1 ... mean empty"""
        cn = fld(me, CN); em = sameempty(me)[1]
        return bsubst(f, lambda a: em if a.op == 'eq0' and a.a[0] in (cn, mulc(cn, -1)) or a.op == 'lt0' and a.a[0] is add(cn, const(-1)) else None)
    def create():
        F = k(r, 'k_queue_new'); me, n = F.A(0), F.A(1); mx, en, ex, mk_, cn, da = flds(me)
        lp = [t for t in F.loops() if t.kind == '?' or t.kind == 'count']
        ms = F.stores()
        size = [e for e in ms if F.lv(e) is mx]
        if len(lp) != 1 or not [e for e in size if F.under(e)]: raise Unk('size')
        t = lp[0]
        i = F.one([e for e in size if not F.under(e)], 'start size'); d = F.one([e for e in size if F.under(e)], 'doubling')
        iv = F.val(i)
        if not isc(iv): raise Unk('start size')
        if iv.a[0] <= 0 or iv.a[0] & (iv.a[0] - 1): raise Bad('CQueue: the size starts at %s, not a power of two' % show(iv), i)
        c0, dd = lin_of(F.val(d))
        if set(dd) == {mx}:
            if c0 or dd[mx] < 2 or dd[mx] & (dd[mx] - 1): raise Bad('CQueue: the size is not a power of two', d)
        elif opaque(F.val(d)): raise Unk('size')
        else: raise Bad('CQueue: the size becomes %s' % show(F.val(d))[:80], d)
        chk(F.gate(d), TRUE, 'CQueue: doubling', d)
        al = [e for e in F.events if e.kind == 'call' and e.name.startswith('operator_new')]
        def cells(rl):
            e = F.one(F.stores(rl), rl); a = alloc_of(F, F.val(e))
            if a is None: raise Unk(rl)
            return F.val(e), newarr(F, a)
        D, (_, nd, _) = cells(DA); L, (_, nl, _) = cells(q('_locs'))
        val(nd, mx, 'CQueue: number of cells'); val(nl, mx, 'CQueue: number of places')
        mv = F.one(F.stores(MK), 'mask'); val(F.val(mv), add(mx, const(-1)), 'CQueue: mask', mv)
        e1, e2 = F.one(F.stores(EN), 'enter'), F.one(F.stores(EX), 'exit')
        if F.val(e1) is not F.val(e2) or not isc(F.val(e1)): raise Bad('CQueue: does not start empty', e1)
        c = F.one(F.stores(CN), 'count'); val(F.val(c), const(0), 'CQueue: count', c)
        ss = [(e, i) for e, i in stores_to(F, D) if F.under(e)]
        if len(ss) != 1: raise (Bad('CQueue: cells are not set') if not ss else Unk('cells'))
        e, i = ss[0]; t = F.under(e)[-1]; idxloop(F, t, 'CQueue'); val(i, t.phi, 'CQueue: cell', e); val(F.S(t.lo), const(0), 'CQueue: first cell', e); val(F.S(t.hi), mx, 'CQueue: last cell', e); chk(F.gate(e), TRUE, 'CQueue: cell', e)
        v = F.val(e)
        if v.op != 'adx' or v.a[0] is not L: raise Unk('places')
        if len(v.a[1]) != 1 or v.a[1][0][0] is not t.phi: raise Bad('CQueue: cells share a place', e)
    r.ob('C19', 'a new queue is empty, with a power of two of cells', create)
    def enq():
        F = k(r, 'k_queue_enq'); me, v = F.A(0), fld(F.A(1), 'f0'); mx, en, ex, mk_, cn, da = flds(me)
        gs = [e for e in F.stores() if F.lv(e) is mx]
        m = F.one(gs, 'growing')
        g = F.gate(m)
        full_ = eq(cn, add(mx, const(-1)))
        meet = cmp_eq0(add(ex, nxt(en, mk_), -1))
        chk_at_least(bsubst(g, lambda a: full_ if a.op == 'eq0' and atom(a) is meet else None), full_, 'enQueue: growing', m)
        room = bnot(g)
        # without growing
        sv = F.one([e for e in F.stores() if F.val(e) is v], 'storing the element'); chk(F.gate(sv), TRUE, 'enQueue: storing', sv)
        val(pick(F.lv(sv), room), fld(at(da, en), 'f0'), 'enQueue: place of the element', sv)
        val(F.retval(), at(da, en), 'enQueue: location returned', sv, care=room)
        val(fin(F, me, EN), nxt(en, mk_), 'enQueue: next place', sv, care=room)
        val(fin(F, me, EX), ex, 'enQueue: oldest place', sv, care=room)
        same_field(F, me, CN, add(cn, const(1)), 'enQueue: count')
        ps = [e for e in F.stores() if not F.under(e) and any(l.op == 'fld' and l.a[1] == 'Location._pos' and l.a[0].op == 'at' for _, l in ite_cases(F.lv(e)))]
        p = F.one([e for e in ps if same(band(F.gate(e), room), room)], 'telling the place')
        val(F.val(p), en, 'enQueue: place told', p, care=room)
        l = pick(F.lv(p), room)
        val(l, fld(at(da, en), 'Location._pos'), 'enQueue: location told its place', p)
        # with growing
        G = F.gate(m)
        if add(F.val(m), mulc(mx, 2), -1) is not const(0): raise (Bad('enQueue: the size grows to %s' % show(F.val(m)), m) if not opaque(F.val(m)) else Unk('size'))
        nm_ = fin(F, me, MK); val(nm_, add(mulc(mx, 2), const(-1)), 'enQueue: mask after growing', m, care=G)
        nd = pick(fin(F, me, DA), G); al = alloc_of(F, nd)
        if al is None:
            if nd is da: raise Bad('enQueue: the cells are not renewed', m)
            raise Unk('cells')
        val(newarr(F, al)[1], mulc(mx, 2), 'enQueue: number of cells', al)
        x1 = pick(fin(F, me, EX), G); val(x1, const(0), 'enQueue: oldest place after growing', m)
        l = pick(F.lv(sv), G)
        if l.op != 'fld' or l.a[0].op != 'at' or l.a[0].a[0] is not nd: raise Unk('place')
        cnt1 = (add(mx, const(-1)), cn)
        if l.a[0].a[1] not in cnt1: raise Bad('enQueue: after growing the element goes to place %s' % show(l.a[0].a[1])[:80], sv)
        e1 = pick(fin(F, me, EN), G)
        if e1 not in (bit_and(32, mx, add(mulc(mx, 2), const(-1))), mx, bit_and(32, add(cn, const(1)), add(mulc(mx, 2), const(-1))), add(cn, const(1))): raise (Bad('enQueue: after growing the next place is %s' % show(e1)[:80], sv) if not opaque(e1) else Unk('next'))
        val(F.val(p), l.a[0].a[1], 'enQueue: place told after growing', p, care=G)
        carried(F, me, nd, G)
        # the segments
        NB, MS, VL = fld(me, q('_nbs')), fld(me, q('_mxSeg')), fld(me, q('_vlocs'))
        vs = F.stores(q('_vlocs'))
        if vs:
            e = F.one(vs, 'segments'); chk_at_least(F.gate(e), band(G, eq(NB, MS)), 'enQueue: room for one more segment', e)
            a2 = alloc_of(F, F.val(e))
            if a2 is None: raise Unk('segments')
            cnt, es = newarr(F, a2)[1:]
            val(fin(F, me, q('_mxSeg')), cnt, 'enQueue: room for segments', e, care=F.gate(e))
            if lin_of(cnt)[1].get(MS, 0) < 2 and not (lin_of(cnt)[1] == {MS: 1} and lin_of(cnt)[0] > 0): raise Bad('enQueue: room for %s segments' % show(cnt), e)
            each(F, F.val(e), const(0), MS, lambda i: at(VL, i), 'enQueue: segments carried over', his=(NB,))
    def carried(F, me, nd, G):
        mx, en, ex, mk_, cn, da = flds(me)
        if bulk(F): raise Unk('block copy')
        ss = [(e, i) for e, i in stores_to(F, nd) if F.under(e)]
        one = [(e, i) for e, i in stores_to(F, nd) if not F.under(e)]
        old = [(e, i) for e, i in ss if F.val(e).op == 'at' and F.val(e).a[0] is da]
        new = [x for x in ss if x not in old]
        if len(old) != 1 or len(new) != 1 or len(one) > 1: raise (Bad('enQueue: growing loses the elements') if not old else Unk('cells'))
        e, i = old[0]; t = F.under(e)[-1]; L = F.g.loops[t.h]
        ring = [p for p in L.phis if isinstance(p, T) and p.info.get('back') is not None and F.S(p.info['back']) is nxt(p, mk_)]
        lin = [p for p in L.phis if isinstance(p, T) and p.info.get('back') is not None and add(p.info['back'], p, -1) is const(1)]
        if len(lin) != 1: raise Unk('copy loop')
        a = lin[0]
        if F.S(L.phis[a][1]) is not const(0): raise (Bad('enQueue: elements are carried over from place %s on' % show(F.S(L.phis[a][1])), e) if isc(F.S(L.phis[a][1])) else Unk('start'))
        if i is not a: raise Unk('target')
        src = F.val(e).a[1]
        if ring:
            c = ring[0]
            val(F.S(L.phis[c][1]), ex, 'enQueue: first element carried over', e)
            if src is not c: raise Bad('enQueue: carries over %s' % show(src)[:60], e)
        elif src is bit_and(32, mk_, add(ex, a)): c = None
        elif occurs(src, a) and not [s for s in subterms(src) if s.op == 'phi' and s is not a]: raise Bad('enQueue: carries over %s' % show(src)[:60], e)
        else: raise Unk('source')
        chk(F.gate(e), TRUE, 'enQueue: carrying over', e)
        ends = [F.v.SB(x[2]) for x in t.exits]
        if len(ends) != 1: raise Unk('end')
        stop = {add(mx, const(-1)): 'all', cn: 'all', mx: 'more'}
        n = None
        if c is not None:
            if same(ends[0], cmp_eq0(add(nxt(c, mk_), en, -1))): n = add(a, const(1)); extra = add(a, const(1)); esrc = nxt(c, mk_)
            elif same(ends[0], cmp_eq0(add(c, en, -1))): n = a; extra = a; esrc = c
        if n is None:
            if t.kind == 'idx' and t.phi is a and F.S(t.hi) in stop: n = F.S(t.hi); extra = n; esrc = None
            else: raise Unk('end of carrying over')
        ps = [x for x in F.stores() if t in F.under(x) and F.lv(x).op == 'fld' and F.lv(x).a[1] == 'Location._pos']
        x = F.one(ps, 'telling carried elements their place'); val(F.val(x), a, 'enQueue: place told to a carried element', x)
        if F.lv(x).a[0] not in (at(da, src), at(nd, a)): raise Bad('enQueue: tells another element its place', x)
        chk(F.gate(x), TRUE, 'enQueue: telling a carried element its place', x)
        if one:
            e2, i2 = one[0]
            if i2 is not extra and not (i2 is a and t.kind == 'idx' and t.full): raise Bad('enQueue: the free place goes to %s' % show(i2)[:60], e2)
            v2 = F.val(e2)
            if not (v2.op == 'at' and v2.a[0] is da): raise Unk('free place')
            if v2.a[1] not in (esrc, en): raise Bad('enQueue: a place is used twice (%s)' % show(v2)[:80], e2)
            nextn = add(i2, const(1))
        else: nextn = extra if stop.get(n) != 'more' else n
        e3, i3 = new[0]; t3 = F.under(e3)[-1]; idxloop(F, t3, 'enQueue: new places')
        if i3 is not t3.phi: raise Unk('index')
        lo = F.S(t3.lo)
        if lo is not nextn and lo is not mx: raise (Bad('enQueue: new places start at %s, should at %s' % (show(lo)[:60], show(nextn)[:60]), e3) if lin_of(lo)[1] == lin_of(nextn)[1] else Unk('start'))
        val(F.S(t3.hi), mulc(mx, 2), 'enQueue: last new place', e3); chk(F.gate(e3), TRUE, 'enQueue: new place', e3)
        v3 = F.val(e3)
        if v3.op != 'adx': raise Unk('new place')
        al = alloc_of(F, v3.a[0])
        if al is None: raise Unk('new place')
        off = const(0)
        for x, cc in v3.a[1]: off = add(off, x if cc > 0 else mulc(x, -1))
        if not one and stop.get(n) != 'more':  raise Bad('enQueue: one place is lost', e3) if off is add(t3.phi, mx, -1) else Unk('offset')
        val(off, add(t3.phi, mx, -1), 'enQueue: new place used', e3)
        cnt = newarr(F, al)[1]; val(cnt, mx, 'enQueue: number of new places', al)
    r.ob('C19 C10', 'enQueue: the element goes to the end, the others keep their order', enq)
    def deq():
        F = k(r, 'k_queue_deq'); me = F.A(0); mx, en, ex, mk_, cn, da = flds(me); em = sameempty(me)[1]
        def N(t): return ite([(norm(me, g), v) for g, v in ite_cases(t)])
        val(N(F.retval()), fld(at(da, ex), 'f0'), 'deQueue: element', care=bnot(em))
        val(N(fin(F, me, EX)), nxt(ex, mk_), 'deQueue: next oldest', care=bnot(em)); val(N(fin(F, me, CN)), add(cn, const(-1)), 'deQueue: count', care=bnot(em))
        val(N(fin(F, me, EX)), ex, 'deQueue: empty queue', care=em); val(N(fin(F, me, CN)), cn, 'deQueue: empty queue', care=em)
        same_field(F, me, EN, en, 'deQueue: next place')
        F = k(r, 'k_queue_peek'); me = F.A(0); mx, en, ex, mk_, cn, da = flds(me); em = sameempty(me)[1]
        val(N(F.retval()), fld(at(da, ex), 'f0'), 'peek: element', care=bnot(em)); 
        if F.stores(): raise Bad('peek: changes the queue', F.stores()[0])
    r.ob('C19 C10', 'deQueue and peek give the oldest element', deq)
    def small():
        F = k(r, 'k_queue_empty'); me = F.A(0)
        chk(norm(me, F.retbool()), sameempty(me)[1], 'empty')
        F = k(r, 'k_queue_size'); retis(F, fld(F.A(0), CN), 'size')
        F = k(r, 'k_queue_clear'); me = F.A(0); same_field(F, me, CN, const(0), 'clear: count')
        if fin(F, me, EN) is not fin(F, me, EX): raise Bad('clear: the queue is not empty')
    r.ob('C19 C10', 'size, empty and clear agree with the contents', small)
    def retract():
        F = k(r, 'k_queue_retract'); me, loc = F.A(0), F.A(1); mx, en, ex, mk_, cn, da = flds(me); pos = fld(loc, 'Location._pos')
        nn = bnot(isnull(loc)); 
        val(fin(F, me, CN), add(cn, const(-1)), 'retract: count', care=nn); val(fin(F, me, CN), cn, 'retract: count', care=bnot(nn))
        care = band(nn, bnot(cmp_eq0(add(en, pos, -1))))
        x1 = ite([(constrain(g, care), v) for g, v in ite_cases(fin(F, me, EX)) if satis(band(g, care))])
        val(fin(F, me, EX), nxt(ex, mk_), 'retract: oldest place', care=care)
        val(fin(F, me, EN), en, 'retract: next place', care=care)
        evs = [e for e in F.events if e.kind in ('store', 'call') and e.loop is None and e.gate is not FALSE]
        if F.loops(): raise Unk('loop')
        ev = next((e for e in evs if e.kind == 'store'), None)
        for (x, a_, n) in ((3, 3, 12), (3, 7, 12), (3, 11, 12), (14, 14, 2), (14, 0, 2)):
            s = Step(F, None, me, {da}, {ex: x, pos: a_, en: n, mk_: 15, cn: (n - x) % 16, mx: 16}, {}, {b: (b.op == 'zz') for b in atoms_of(isnull(loc))})
            s.run(evs, sub={loc: LOC(a_)})
            now = {i: v for i, v in s.cells.items() if v is not LOC(i)}
            if a_ == x:
                if now: raise Bad('retract: removing the oldest element moves others', ev)
                continue
            if now != {a_: LOC(x), x: LOC(a_)}:
                if set(now) - {a_, x}: raise Unk('other cells')
                raise Bad('retract: the oldest element does not take the free place (or a place is lost)', ev)
            if s.pos.get(LOC(x)) != a_: raise Bad('retract: the moved element is not told its new place', ev)
    r.ob('C19', 'retract: exactly the given element leaves', retract)
    def visit():
        for nm in ('k_queue_all', 'k_queue_foldl'):
            F = k(r, nm); me = F.A(0); ctx = nm[8:]
            c = F.one([e for e in F.events if e.kind == 'call' and e.name in ('UVisit::operator()', 'UFold::operator()')], 'visiting')
            ts = F.under(c)
            if len(ts) != 1: raise (Bad(ctx + ': no loop', c) if not ts else Unk('nest'))
            t = ts[0]
            if t.kind != 'ring' or t.cont_obj is not me:
                L = F.g.loops[t.h]; mk_ = fld(me, MK)
                rp = [p for p in L.phis if isinstance(p, T) and p.info.get('back') is not None and F.S(p.info['back']) is nxt(p, mk_)]
                cp = [p for p in L.phis if isinstance(p, T) and p.info.get('back') is not None and isc(add(p.info['back'], p, -1)) and p not in rp]
                if rp and F.S(L.phis[rp[0]][1]) is not fld(me, EX) and not opaque(F.S(L.phis[rp[0]][1])): raise Bad('%s: starts at %s, not at the oldest element' % (ctx, show(F.S(L.phis[rp[0]][1]))[:60]), c)
                for p in cp:
                    i0 = F.S(L.phis[p][1])
                    if lin_of(i0)[1] == {fld(me, CN): 1} and lin_of(i0)[0] and len(t.exits) == 1 and same(F.v.SB(t.exits[0][2]), cmp_eq0(p)): raise Bad('%s: visits %s elements' % (ctx, show(i0)), c)
                raise Unk('loop')
            chk(F.gate(c), TRUE, ctx + ': visiting an element', c)
            e = F.a(c, len(c.args) - 1)
            if nm == 'k_queue_all':
                if not t.full: raise stops(F, t)(ctx + ': may stop early', c)
                val(e, at(fld(me, DA), t.phi), ctx + ': element', c)
            else:
                acc = F.a(c, 1); val(e, t.elem, ctx + ': element', c)
                L = F.g.loops[t.h]
                if acc not in L.phis: raise Unk('accumulator')
                val(F.S(L.phis[acc][1]), F.g.args[-1], ctx + ': start'); val(F.S(acc.info['back']), F.S(c.ret), ctx + ': accumulated', c); retis(F, acc, ctx + ': result')
                chk_imp(bor(*[F.v.SB(x[2]) for x in t.exits]), bor(bnot(cmp_eq0(acc)), *[cmp_eq0(p) for p in L.phis if isinstance(p, T)]), ctx + ': stops', c)
    r.ob('C19 C10', 'visiting goes through every element once, oldest first', visit)
