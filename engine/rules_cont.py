"""Containers and support classes: what each operation leaves behind, compared with its meaning."""
from rules import *
from rules_dd import in_mem
from rules_val import full, loopgate, nested

IX = mk('i')                     # the index of a loop, once the loop is understood
def k(r, nm, args='', must=True): return r.fn('cont', r'^%s\(%s' % (nm, args), must=must)
def fin(F, obj, rl):
    """value of a field when the function returns"""
    ss = [e for e in F.stores() if e.ptr.op != 'ite' and F.lv(e) is fld(obj, rl)]
    if not ss:
        if any(x is fld(obj, rl) for e in F.stores() for _, x in ite_cases(F.lv(e))): raise Unk('field written through a conditional pointer')
        return fld(obj, rl)
    e = ss[0]
    return F.final(e.ptr, e.size, e.ty)
def newarr(F, e):
    """(pool or None, number of elements, element size) of an allocation"""
    a = F.a(e, len(e.args) - 1) if e.name in ('Pool::allocate',) else F.a(e, 0)
    pool = F.a(e, 0) if e.name == 'Pool::allocate' else (F.a(e, 1) if len(e.args) > 1 else None)
    n = mulof(a)
    return pool, n[0], n[1]
def mulof(a):
    ms = [v for g, v in ite_cases(a) if not (isc(v) and v.a[0] in (-1, 0xffffffffffffffff))]
    if len(ms) != 1: raise Unk('size of an allocation')
    m = ms[0]
    if m.op == 'exv' and m.a[0].op == 'intr' and 'umul' in m.a[0].a[0]: return m.a[0].a[1], m.a[0].a[2].a[0]
    if isc(m): return m, 1
    c0, d = lin_of(m)
    return m, 1
def alloc_of(F, t):
    for e in F.events:
        if e.kind == 'call' and e.ret is t and e.name in gvg.FRESH: return e
    return None
def bulk(F):
    """whole-block copies the array rules do not look into"""
    return [e for e in F.events if e.kind in ('copy', 'set') and psplit(e.ptr)[0].op != 'alloca' or e.kind == 'call' and re.search(r'mem(cpy|move|set)|std::(copy|fill|move)', e.name)]
def cell(F, e):
    """(base, index) of an array store"""
    cs = ite_cases(F.lv(e)); ix = None; bs = []
    for g, v in cs:
        if v.op == 'at':
            b, i = v.a
        elif v.op == 'fld' and v.a[1] == 'f0': b, i = v.a[0], const(0)
        elif v.op == 'fld' and re.match(r'f\d+$', v.a[1]) and e.size and int(v.a[1][1:]) % e.size == 0: b, i = v.a[0], const(int(v.a[1][1:]) // e.size)
        else: return None
        if ix is not None and i is not ix: return None
        ix = i; bs.append((g, b))
    return ite(bs), ix
def isbase(b, base):
    """b denotes the array `base` (whichever way a zero-length array is represented)"""
    if b is base: return True
    for g, v in ite_cases(b):
        for h, w in ite_cases(base):
            c = band(g, h)
            if c is FALSE or v is w or v is NULL or w is NULL: continue
            if band(c, theory(c)) is FALSE: continue
            return False
    return True
def stores_to(F, base):
    out = []
    for e in F.stores():
        c = cell(F, e)
        if c and isbase(c[0], base): out.append((e, c[1]))
    return out
def wild(F):
    """something is written through a pointer that moves, or that is not known"""
    for e in F.stores():
        if psplit(e.ptr)[0].op == 'phi': return True
        for _, v in ite_cases(F.lv(e)):
            x = v
            while x.op in ('fld', 'at', 'adr', 'adx'): x = x.a[0]
            if x.op in ('phi', 'elem') or x.op in ('unk', 'rcall', 'call', 'pcall') and alloc_of(F, x) is None: return True
    return False
def idxloop(F, t, ctx):
    if t.kind not in ('idx', 'vec'): raise Unk('%s: loop is %s' % (ctx, t.kind))
    if t.early or not t.full:
        for x in t.early:
            if any(opaque(subst(F.g, a, t.phi, IX)) for a in atoms_of(F.v.SB(x[2]))): raise Unk(ctx + ': loop may stop early')
        raise Bad(ctx + ': the loop may stop early')
def over(F, t, f):
    """f with the loop index replaced by the neutral index"""
    return subst(F.g, f, t.phi, IX)
def elsewhere(F, e, base):
    """a block operation that does not concern base"""
    if e.kind == 'call': return False
    try: d = F.S(psplit(e.ptr)[0])
    except Unk: return False
    ds = [v for _, v in ite_cases(d)]; bs = [v for _, v in ite_cases(base)]
    if any(x in bs for x in ds): return False
    return all(alloc_of(F, x) is not None or x is NULL for x in ds) or all(alloc_of(F, x) is not None or x is NULL for x in bs)
def esize(F, base):
    for _, v in ite_cases(base):
        a = alloc_of(F, v)
        if a is not None: return newarr(F, a)[2]
    return 8
def block(F, e, base, lo, hi, value, ctx, entry, his, los, within):
    """a block copy or a block fill instead of a loop"""
    z = esize(F, base)
    if F.under(e) and len(F.under(e)) != len(within): raise Unk(ctx + ': block operation in a loop')
    d, n = F.S(e.args[0]), F.S(e.args[2])
    cells = [d] if d.op != 'ite' else [v for _, v in ite_cases(d)]
    offs = set()
    for x in cells:
        if x.op == 'adx' and isbase(x.a[0], base) and len(x.a[1]) == 1 and x.a[1][0][1] == z: offs.add(x.a[1][0][0])
        elif isbase(x, base): offs.add(const(0))
        else: raise Unk(ctx + ': block')
    if len(offs) != 1: raise Unk(ctx + ': block')
    first = offs.pop()
    if first not in (lo,) + tuple(los): raise (Unk if opaque(first) else Bad)(ctx + ': starts at %s' % show(first))
    want = [mulc(add(h, first, -1), z) for h in (hi,) + tuple(his)]
    if n not in want:
        vs = set().union(*[set(lin_of(w)[1]) for w in want])
        if opaque(n) or n.op not in ('lin', 'c') and n not in vs: raise Unk(ctx + ': length of the block')
        if not set(lin_of(n)[1]) <= vs: raise Unk(ctx + ': length of the block')
        raise Bad('%s: a block of %s bytes, should be %s' % (ctx, show(n)[:60], show(want[0])[:60]), e)
    v0 = value(first)
    if e.kind == 'set':
        b = F.S(e.args[1])
        if not (isc(b) and isc(v0)): raise Unk(ctx + ': block fill')
        if b.a[0] == v0.a[0] == 0 or (b.a[0] & 255) == 255 and v0.a[0] == -1: pass
        else: raise Bad('%s: filled with %s' % (ctx, show(b)), e)
    else:
        s = F.S(e.args[1])
        if v0.op == 'at' and v0.a[0] is s and v0.a[1] is const(0) or v0.op == 'fld' and v0.a[0] is s: pass
        elif v0.op == 'at' and s.op == 'adx' and s.a[0] is v0.a[0] and s.a[1] == ((v0.a[1], z),): pass
        else:
            raise (Unk(ctx + ': block source') if opaque(s) or opaque(v0) or v0.op != 'at' else Bad('%s: copied from %s' % (ctx, show(s)[:80]), e))
    g = F.gate(e)
    ones = [x for x, i in stores_to(F, base) if not F.under(x) and i is first and F.val(x) is v0]
    g = bor(g, *[F.gate(x) for x in ones])
    need = bnot(cmp_lt0(add(n, const(-1))))
    if entry is not None: need = band(need, entry)
    if not entails(need, g): raise Unk(ctx + ': condition of the block operation')
    return e, None
def each(F, base, lo, hi, value, ctx, entry=None, his=(), los=(), within=()):
    """for every i in lo..hi-1 : base[i] := value(i), exactly once"""
    bs = [e for e in bulk(F) if not elsewhere(F, e, base)]
    if bs:
        if len(bs) > 1 or bs[0].kind == 'call': raise Unk(ctx + ': block copy')
        return block(F, bs[0], base, lo, hi, value, ctx, entry, his, los, within)
    ss = [(e, i) for e, i in stores_to(F, base) if F.under(e)]
    if not ss:
        if stores_to(F, base): raise Unk(ctx + ': written outside a loop')
        if any(t.kind == '?' for t in F.loops()) : raise Unk(ctx + ': loop not recognised')
        if wild(F): raise Unk(ctx + ': written through a moving pointer')
        raise Bad(ctx + ': nothing is written')
    if len(ss) > 1: raise Unk(ctx + ': written at several places')
    e, i = ss[0]
    ts = F.under(e)
    if len(ts) != 1 + len(within): raise Unk(ctx + ': nested loops')
    t = ts[-1]
    idxloop(F, t, ctx)
    c, d = lin_of(i)
    if d.get(t.phi) != 1 or len(d) != 1: raise Unk(ctx + ': index %s' % show(i))
    if t.natural is not None and t.natural[0] != t.h: raise Unk(ctx + ': tested at the end of the turn')
    if t.step == -1:      # from the last one down; exits when phi is hi, or goes below it
        first = F.S(t.hi) if not t.eqtest else add(F.S(t.hi), const(1))
        lo_, hi_ = add(first, const(c)), add(F.S(t.lo), const(c + 1))
        if any(x.op == 'at' and isbase(x.a[0], base) for x in subterms(F.val(e))): raise Unk(ctx + ': order matters')
    elif t.step == 1: lo_, hi_ = add(F.S(t.lo), const(c)), add(F.S(t.hi), const(c))
    else: raise Unk(ctx + ': step')
    if lo_ not in (lo,) + tuple(los):
        if opaque(lo_): raise Unk(ctx + ': first index')
        raise Bad('%s: starts at %s, should at %s' % (ctx, show(lo_), show(lo)), e)
    if hi_ not in (hi,) + tuple(his):
        if opaque(hi_): raise Unk(ctx + ': last index')
        raise Bad('%s: ends before %s, should before %s' % (ctx, show(hi_), show(hi)), e)
    sh = lambda x: subst(F.g, x, t.phi, add(IX, const(-c)))
    chk(sh(F.gate(e)), TRUE, ctx + ': writing an element', e)
    val(sh(F.val(e)), value(IX), ctx + ': element written', e)
    if entry is not None: chk_at_least(loopgate(F, t, within[-1] if within else None), entry, ctx + ': the loop', e)
    return e, t
def same_field(F, obj, rl, exp, ctx, care=TRUE):
    if any(F.lv(e) is fld(obj, rl) and F.under(e) for e in F.stores()): raise Unk('%s: written in a loop' % ctx)
    val(fin(F, obj, rl), exp, ctx, next(iter([e for e in F.stores() if F.lv(e) is fld(obj, rl)]), None), care)
def untouched(F, objs, ctx):
    """nothing of objs is written"""
    for e in F.stores():
        for _, v in ite_cases(F.lv(e)):
            r = v
            while r.op in ('fld', 'at', 'adr'):
                r = r.a[0]
                if r in objs: raise Bad('%s: writes %s' % (ctx, show(v)[:100]), e)
def retis(F, exp, ctx): val(F.retval(), exp, ctx, F.g.rets[0] if F.g.rets else None)
def retb(F, exp, ctx): chk(F.retbool(), exp, ctx, F.g.rets[0] if F.g.rets else None)

# ---------------------------------------------------------------- C16 -------
def aligned(F, t, req, ctx, ev=None):
    """t is the request rounded up to a multiple of 16"""
    for g, v in ite_cases(t):
        low = cmp_lt0(add(bit_and(64, req, const(15)), const(-1)))
        if v is req:
            if not entails(g, low) and not entails(g, cmp_eq0(bit_and(64, req, const(15)))): raise Bad('%s: a size that is no multiple of 16 is not rounded up' % ctx, ev)
            continue
        c, d = lin_of(v)
        if c == 1 and len(d) == 1:
            x, m = list(d.items())[0]
            if m == 1 and x.op == 'or' and any(isc(y) for y in x.a) and req in x.a:
                q = [y.a[0] for y in x.a if isc(y)][0]
                if q >= 15 and (q & (q + 1)) == 0: continue
                raise Bad('%s: sizes are rounded up to a multiple of %d' % (ctx, q + 1), ev)
        if v.op == 'and' and any(isc(y) for y in v.a):
            q = [y.a[0] for y in v.a if isc(y)][0]; o = [y for y in v.a if not isc(y)]
            q &= (1 << 64) - 1; al = ((~q) & ((1 << 64) - 1)) + 1
            if len(o) == 1 and o[0] is add(req, const(al - 1)) and al >= 16 and (al & (al - 1)) == 0: continue
            if len(o) == 1 and lin_of(o[0])[1] == {req: 1}: raise Bad('%s: sizes are rounded to %s' % (ctx, show(v)), ev)
        raise Unk(ctx + ': rounding of sizes')

@rule('C16')
def pool(r):
    F = r.fn('cont', r'^Pool::allocate\(')
    me, req = F.A(0), F.A(1)
    TOP, SEG, NB, MX, SS = [fld(me, 'Pool.' + x) for x in ('_top', '_seg', '_nbSeg', '_mxs', '_segSize')]
    tab = fld(me, 'f0')
    def shape():
        ret = F.retval()
        if ret.op != 'adx': raise Unk('block returned')
        ts = [t for t in F.loops() if t.kind != 'idx']
        if len(ts) != 1: raise Unk('search for a segment')
        return ret, ts[0]
    def looked():
        adv = [x for x in F.stores('Pool._seg') if F.gate(x) is not FALSE]
        if not adv or any(F.under(x) for x in adv) or F.foreign() or F.calls('Pool::allocate'): return
        seen = set()
        for e in F.events:
            for a in atoms_of(F.gate(e)): seen |= {x.a[0] for x in subterms(a) if x.op == 'fld' and x.a[1] == 'Segment._sz'}
        if len(seen) <= 1: raise Bad('allocate: the segment after a full one is used without looking at its size', adv[0])
        raise Unk('search for a segment')
    r.ob('C16', 'allocate: no segment is used before it is known to be large enough', looked)
    def size():
        """new top - returned offset"""
        e = [x for x in F.stores('Pool._top') if not F.under(x)]
        e = F.one(e, 'moving the top')
        return e, ite([(g, add(v, TOP, -1)) for g, v in ite_cases(F.val(e))])
    def block():
        e, sz = size()
        chk(F.gate(e), TRUE, 'allocate: moving the top', e)
        ret, t = shape()
        b, ix = ret.a[0], ret.a[1]
        if len(ix) != 1 or ix[0][1] != 1: raise Unk('offset')
        off = ix[0][0]
        if off is not TOP:
            if opaque(off): raise Unk('offset')
            raise Bad('allocate: the block starts at offset %s, the free space at the top' % show(off)[:100], e)
        if any(occurs(v, TOP) for _, v in ite_cases(sz)): raise Bad('allocate: the new top is %s' % show(F.val(e))[:150], e)
        aligned(F, sz, req, 'allocate', e)
        return e, sz, b, t
    r.ob('C16', 'allocate: blocks do not overlap and are aligned', block)
    def fits():
        e, sz, b, t = block()
        seg = b.a[0] if b.op == 'fld' else None
        if seg is None: raise Unk('segment')
        nat = [F.v.SB(x[2]) for x in t.exits]
        g = bor(*nat)
        room = bor(*[band(h, bnot(cmp_lt0(add(add(fld(seg, 'Segment._sz'), add(TOP, v), -1), const(0))))) for h, v in ite_cases(sz)])
        chk_imp(g, room, 'allocate: a block is taken from a segment', e) if not opaque_but(g, seg) else chk_imp(g, room, 'allocate: a block is taken from a segment', e)
    def opaque_but(g, s): return False
    r.ob('C16', 'allocate: a block lies inside its segment', fits)
    def advance():
        e, sz, b, t = block()
        s = F.one([x for x in F.stores('Pool._seg') if t in F.under(x)], 'going to the next segment')
        val(F.val(s), add(SEG, const(1)), 'allocate: next segment', s); chk(F.gate(s), TRUE, 'allocate: next segment', s)
        z = F.one([x for x in F.stores('Pool._top') if t in F.under(x)], 'starting the next segment')
        val(F.val(z), const(0), 'allocate: start of a segment', z); chk(F.gate(z), TRUE, 'allocate: start of a segment', z)
        seg = b.a[0]
        L = F.g.loops[t.h]
        for p, (ins, init) in L.phis.items():
            if p is not seg: continue
            val(F.S(init), at(tab, SEG), 'allocate: current segment')
            for g, v in ite_cases(F.S(p.info['back'])):
                if v.op == 'at' and v.a[1] is add(SEG, const(1)): continue
                if v.op == 'at': raise Bad('allocate: next segment taken from %s' % show(v)[:100], s)
                raise Unk('segment')
    r.ob('C16', 'allocate: a full segment is followed by the next one, from its start', advance)
    def newseg():
        e, sz, b, t = block()
        need = bnot(cmp_lt0(add(add(SEG, const(1)), NB, -1)))
        inv = bnot(cmp_lt0(add(add(NB, SEG, -1), const(-1))))          # the current segment is one of those there are
        n = F.one([x for x in F.stores('Pool._nbSeg') if t in F.under(x)], 'a new segment')
        if same(F.gate(n), need, inv): need = F.gate(n)
        val(F.val(n), add(NB, const(1)), 'allocate: number of segments', n); chk(F.gate(n), need, 'allocate: adding a segment', n)
        szs = [x for x in F.stores('Segment._sz')]
        s = F.one(szs, 'size of the segment')
        obj = F.lv(s).a[0]
        ba = F.one([x for x in F.stores() if F.lv(x) is fld(obj, 'f0')], 'memory of the segment')
        al = alloc_of(F, F.val(ba))
        if al is None: raise Unk('memory of the segment')
        got = F.a(al, 0)
        for g, v in ite_cases(got):
            for h, w in ite_cases(F.val(s)):
                if satis(band(g, h)) and v is not w: raise Bad('allocate: a segment says it has %s bytes but has %s' % (show(w)[:60], show(v)[:60]), s)
        # big enough for the request
        for g, v in ite_cases(F.val(s)):
            for h, w in ite_cases(sz):
                c = band(g, h)
                if not satis(c) or v is w: continue
                if entails(c, bnot(cmp_lt0(add(v, w, -1)))): continue
                if opaque(v): raise Unk('size of a segment')
                raise Bad('allocate: a new segment has %s bytes, needed %s (when %s)' % (show(v)[:60], show(w)[:60], bshow(c)[:100]), s)
        p = [(x, cell(F, x)) for x in F.stores() if F.val(x) is obj and cell(F, x)]
        if len(p) != 1: raise Unk('table')
        x, (bb, ix) = p[0]
        val(ix, NB, 'allocate: place of the new segment', x); chk(F.gate(x), need, 'allocate: registering the segment', x)
        grow = bor(*[g for g, v in ite_cases(bb) if v is not tab])
        chk_at_least(grow, eq(NB, MX), 'allocate: growing the table', x) if False else None
        gs = [y for y in F.stores('Pool._mxs')]
        y = F.one(gs, 'growing the table'); chk_at_least(F.gate(y), band(need, eq(NB, MX)), 'allocate: growing the table', y)
        c0, d = lin_of(F.val(y))
        if not (set(d) == {MX} and (d[MX] >= 2 and c0 >= 0 or d[MX] == 1 and c0 >= 1)): raise Bad('allocate: new size of the table is %s' % show(F.val(y)), y) if not opaque(F.val(y)) else Unk('table size')
        nt = F.one([z for z in F.stores() if F.lv(z) is tab], 'new table')
        a2 = alloc_of(F, F.val(nt))
        if a2 is None: raise Unk('new table')
        cnt, esz = mulof(F.a(a2, 0))
        val(cnt, F.val(y), 'allocate: size of the new table', a2)
        chk(F.gate(nt), F.gate(y), 'allocate: new table', nt)
        each(F, F.val(nt), const(0), MX, lambda i: at(tab, i), 'allocate: segments carried over', his=(NB,), within=(t,))
    r.ob('C16', 'allocate: a new segment is large enough and is registered', newseg)
    def ctor():
        G = r.fn('cont', r'^k_pool_new\('); o, n = G.A(0), G.A(1)
        same_field(G, o, 'Pool._segSize', n, 'Pool: segment size'); same_field(G, o, 'Pool._top', const(0), 'Pool: top'); same_field(G, o, 'Pool._seg', const(0), 'Pool: segment')
        same_field(G, o, 'Pool._nbSeg', const(1), 'Pool: number of segments')
        t = fin(G, o, 'f0'); a = alloc_of(G, t)
        if a is None: raise Unk('table')
        mx = fin(G, o, 'Pool._mxs')
        if not isc(mx) or mx.a[0] < 1: raise Bad('Pool: room for %s segments' % show(mx))
        cnt, es = mulof(G.a(a, 0))
        if isc(cnt) and cnt.a[0] * es < mx.a[0] * 8: raise Bad('Pool: table smaller than announced', a)
        s = G.one(G.stores('Segment._sz'), 'first segment'); val(G.val(s), n, 'Pool: size of the first segment', s)
        b = G.one([x for x in G.stores() if G.lv(x) is fld(G.lv(s).a[0], 'f0')], 'memory'); al = alloc_of(G, G.val(b))
        if al is not None: val(G.a(al, 0), n, 'Pool: memory of the first segment', al)
        st = [x for x in G.stores() if G.val(x) is G.lv(s).a[0]]
        x = G.one(st, 'registering the first segment')
        c = cell(G, x)
        if c and isbase(c[0], t): val(c[1], const(0), 'Pool: place of the first segment', x)
    r.ob('C16', 'Pool: starts with one segment of the given size', ctor)
    def marks():
        M = r.fn('cont', r'^k_pool_mark\('); o = M.A(0)
        t = M.retval()
        parts = {}
        while t is not None and t.op == 'insv': parts.setdefault(t.a[2], t.a[1]); t = t.a[0]
        if not parts: raise Unk('mark')
        val(parts.get((0,)), fld(o, 'Pool._top'), 'mark: top'); val(parts.get((1,)), fld(o, 'Pool._seg'), 'mark: segment')
        C = r.fn('cont', r'^k_pool_clear\('); o, m = C.A(0), C.A(1)
        same_field(C, o, 'Pool._top', fld(m, 'f0'), 'clear: top'); same_field(C, o, 'Pool._seg', fld(m, 'PoolMark._seg'), 'clear: segment')
        Z = r.fn('cont', r'^k_pool_clear0\('); o = Z.A(0)
        same_field(Z, o, 'Pool._top', const(0), 'clear: top'); same_field(Z, o, 'Pool._seg', const(0), 'clear: segment')
        for G in (C, Z):
            for e in G.stores():
                if not any(G.lv(e) is fld(G.A(0), x) for x in ('Pool._top', 'Pool._seg')): raise Bad('clear: writes %s' % show(G.lv(e)), e)
        D = r.fn('cont', r'^Pool::~Pool\(', must=False)
    r.ob('C16', 'going back to a mark restores exactly the state at the mark', marks)
    def news():
        for nm in ('k_new', 'k_newa'):
            G = k(r, nm); e = G.one(G.calls('Pool::allocate'), 'allocation')
            val(G.a(e, 0), G.A(1), 'operator new: pool', e); val(G.a(e, 1), G.A(0), 'operator new: size', e); val(G.retval(), e.ret, 'operator new: block', e)
    r.ob('C16', 'operator new takes the requested size from the given pool', news)

# ---------------------------------------------------------------- C17 -------
@rule('C17')
def vec(r):
    D, S, M = 'Vec._data', 'Vec._sz', 'Vec._msz'
    def fresh(F, me, pool, ctx, least, care=TRUE):
        """data of me is a new array of as many cells as announced, at least `least`"""
        d = fin(F, me, D); m = fin(F, me, M)
        for g, v in ite_cases(d):
            g = band(g, care)
            if not satis(g): continue
            if v is NULL:
                mm = pick(m, g)
                if not entails(g, cmp_lt0(add(mm, const(-1)))) and not entails(g, cmp_eq0(mm)): raise Bad('%s: no cells although %s are announced' % (ctx, show(mm)[:60]))
                continue
            a = alloc_of(F, v)
            if a is None:
                if v is fld(me, D):
                    continue
                raise Bad('%s: cells are %s' % (ctx, show(v)[:80])) if not opaque(v) else Unk('cells')
            p, n, es = newarr(F, a)
            if pool is not None: val(p, pool, ctx + ': pool the cells come from', a)
            if es != 8: raise Unk('element size')
            val(n, pick(m, g), ctx + ': number of cells', a, care=g)
        return d, m
    def copies():
        for nm, si, pool in (('k_vec_copy', 1, None), ('k_vec_copym', 2, 1)):
            F = k(r, nm); me, o = F.A(0), F.A(si)
            P = F.A(pool) if pool else fld(o, 'f0')
            same_field(F, me, 'f0', P, 'copy: pool'); same_field(F, me, S, fld(o, S), 'copy: size')
            d, m = fresh(F, me, P, 'copy', None)
            if m not in (fld(o, M), fld(o, S)): raise Unk('capacity')
            each(F, d, const(0), fld(o, S), lambda i: at(fld(o, D), i), 'copy', TRUE)
            untouched(F, {o}, 'copy')
    r.ob('C17', 'a copy has the same elements in cells of its own', copies)
    def create():
        F = k(r, 'k_vec_new'); me = F.A(0)
        same_field(F, me, 'f0', F.A(1), 'new: pool'); same_field(F, me, S, const(0), 'new: size'); same_field(F, me, M, F.A(2), 'new: capacity')
        fresh(F, me, F.A(1), 'new', None)
    r.ob('C17', 'a new vector is empty', create)
    def assign():
        F = k(r, 'k_vec_assign'); me, o = F.A(0), F.A(1)
        two = ne(me, o)
        same_field(F, me, S, fld(o, S), 'assign: size', two)
        d = fin(F, me, D); m = fin(F, me, M)
        for g, v in ite_cases(d):
            g = band(g, two)
            if not satis(g): continue
            if v is fld(me, D):
                # old cells kept: must be enough
                if not entails(g, bnot(cmp_lt0(add(fld(me, M), fld(o, M), -1)))) and not entails(g, bnot(cmp_lt0(add(fld(me, M), fld(o, S), -1)))): raise Bad('assign: the cells may not be enough (%s)' % bshow(g)[:150])
                val(pick(m, g), fld(me, M), 'assign: capacity', care=g)
            elif v is NULL or alloc_of(F, v) is not None: pass
            elif opaque(v): raise Unk('cells')
            else: raise Bad('assign: cells become %s' % show(v)[:100])
        fresh(F, me, fld(me, 'f0'), 'assign', None, two)
        for g, v in ite_cases(m):
            if v not in (fld(me, M), fld(o, M), fld(o, S)): raise Unk('capacity')
        each(F, ite([(constrain(g, two), v) for g, v in ite_cases(d) if satis(band(g, two))]), const(0), fld(o, S), lambda i: at(fld(o, D), i), 'assign', two)
        untouched(F, {o}, 'assign')
        same_field(F, me, 'f0', fld(me, 'f0'), 'assign: pool')
    r.ob('C17', 'assignment makes the same elements, in cells of its own', assign)
    def moves():
        for nm in ('k_vec_move', 'k_vec_massign'):
            F = k(r, nm); me, o = F.A(0), F.A(1)
            for f in ('f0', S, M, D): same_field(F, me, f, fld(o, f), 'move: ' + f)
        F = k(r, 'k_vec_massign'); o = F.A(1)
        same_field(F, o, S, const(0), 'move: size left'); same_field(F, o, M, const(0), 'move: capacity left')
    r.ob('C17', 'moving hands over the elements', moves)
    def growth(F, me, p, ctx):
        """cells for index p exist after it, and the old elements are in place"""
        d = fin(F, me, D); m = fin(F, me, M)
        for g, v in ite_cases(d):
            if not satis(g): continue
            if v is fld(me, D): continue
            a = alloc_of(F, v)
            if a is None: raise Unk('cells')
            po, n, es = newarr(F, a)
            val(po, fld(me, 'f0'), ctx + ': pool', a); 
            if pick(m, g) is not n and not opaque(n): raise Bad('%s: %s cells but capacity %s' % (ctx, show(n)[:60], show(pick(m, g))[:60]), a)
            if pick(m, g) is not n: raise Unk('capacity')
            e, t = each(F, v, const(0), fld(me, M), lambda i: at(fld(me, D), i), ctx + ': elements carried over', his=(fld(me, S),))
            if t is not None and not same(loopgate(F, t), g) and not entails(g, loopgate(F, t)): raise Unk('copy condition')
        # the new capacity exceeds p: loop that doubles until it does
        lp = [t for t in F.loops() if t.kind == '?']
        if len(lp) == 1:
            t = lp[0]; L = F.g.loops[t.h]
            ph = [q for q in L.phis if isinstance(q, T)]
            if len(ph) != 1: raise Unk('growth loop')
            n = ph[0]
            ex = bor(*[F.v.SB(x[2]) for x in t.exits])
            chk_imp_x(ex, bnot(cmp_lt0(add(add(n, p, -1), const(-1)))), ctx + ': growth stops', n)
            b = F.S(n.info['back']); c0, dd = lin_of(b)
            if not (set(dd) == {n} and c0 >= 0 and (dd[n] >= 2)): raise Bad('%s: capacity grows to %s' % (ctx, show(b))) if not [x for x in dd if x is not n] else Unk('growth')
            ini = F.S(L.phis[n][1])
            for g, v in ite_cases(ini):
                if isc(v):
                    if v.a[0] <= 0: raise Bad('%s: growth starts at %s' % (ctx, show(v)))
                elif v is fld(me, M):
                    if not entails(g, bnot(cmp_lt0(add(v, const(-1))))) : raise Bad('%s: growth may start at 0 and never end' % ctx)
                else: raise Unk('growth start')
            for g, v in ite_cases(m):
                if v not in (n, fld(me, M)): raise Unk('capacity')
                if v is fld(me, M) and satis(g) and not entails(g, eq(n, fld(me, M))): raise Bad(ctx + ': capacity not updated')
            for g, v in ite_cases(d):
                if v is fld(me, D) and satis(g) and not entails(g, eq(n, fld(me, M))): raise Bad(ctx + ': cells not renewed although the capacity grows')
        else: raise Unk('growth')
        return d
    def chk_imp_x(g, f, what, n):
        s = lambda x: x
        if entails(g, f): return
        Y = mk('newsize')
        raise Bad('%s when [%s], should when [%s]' % (what, bshow(g)[:200], bshow(f)[:200]))
    def push():
        F = k(r, 'k_vec_push'); me, v = F.A(0), fld(F.A(1), 'f0')
        d = growth(F, me, fld(me, S), 'push_back')
        ss = [(e, i) for e, i in stores_to(F, d) if not F.under(e)]
        if len(ss) != 1: raise (Bad('push_back: the element is not stored') if not ss else Unk('stores'))
        e, i = ss[0]
        val(i, fld(me, S), 'push_back: place', e); val(F.val(e), v, 'push_back: element', e); chk(F.gate(e), TRUE, 'push_back: storing', e)
        same_field(F, me, S, add(fld(me, S), const(1)), 'push_back: size'); retis(F, fld(me, S), 'push_back: index returned')
    r.ob('C17', 'push_back adds the element at the end and keeps the others', push)
    def setter():
        F = k(r, 'k_vec_set'); me, i0, v = F.A(0), F.A(1), fld(F.A(2), 'f0')
        ss = [(e, i) for e, i in stores_to(F, fin(F, me, D)) if not F.under(e)]
        if len(ss) != 1: raise (Bad('[]=: the element is not stored') if not ss else Unk('stores'))
        e, i = ss[0]
        val(i, i0, '[]=: place', e); val(F.val(e), v, '[]=: element', e); chk(F.gate(e), TRUE, '[]=: storing', e)
        same_field(F, me, S, add(i0, const(1)), '[]=: size')
        growth(F, me, i0, '[]=')
    r.ob('C17', 'writing at an index makes room for it and keeps the other elements', setter)
    def small():
        F = k(r, 'k_vec_pop'); me = F.A(0)
        retis(F, at(fld(me, D), add(fld(me, S), const(-1))), 'pop_back: element'); same_field(F, me, S, add(fld(me, S), const(-1)), 'pop_back: size')
        F = k(r, 'k_vec_clear'); same_field(F, F.A(0), S, const(0), 'clear: size')
        F = k(r, 'k_vec_size'); retis(F, fld(F.A(0), S), 'size')
        for nm in ('k_vec_get', 'k_vec_idx'):
            F = k(r, nm); retis(F, at(fld(F.A(0), D), F.A(1)), nm)
        F = k(r, 'k_vec_at'); ss = stores_to(F, fld(F.A(0), D))
        if len(ss) != 1: raise (Bad('at: nothing stored') if not ss else Unk('stores'))
        e, i = ss[0]; val(i, F.A(1), 'at: place', e); val(F.val(e), fld(F.A(2), 'f0'), 'at: element', e); chk(F.gate(e), TRUE, 'at', e)
    r.ob('C17', 'reading, popping, clearing', small)
    def remove():
        F = k(r, 'k_vec_remove'); me, i0 = F.A(0), F.A(1)
        same_field(F, me, S, add(fld(me, S), const(-1)), 'remove: size'); retis(F, add(fld(me, S), const(-1)), 'remove: size returned')
        ss = stores_to(F, fld(me, D))
        if len(ss) != 1: raise (Bad('remove: the gap is not filled') if not ss else Unk('stores'))
        e, i = ss[0]
        val(i, i0, 'remove: place filled', e); val(F.val(e), at(fld(me, D), add(fld(me, S), const(-1))), 'remove: filled with', e)
        last = cmp_lt0(add(i0, add(fld(me, S), const(-1)), -1))
        chk_at_least(F.gate(e), band(last, bnot(cmp_lt0(i0))), 'remove: filling the gap', e)
        rl = [x for x in F.events if x.kind == 'call' and x.name.startswith('URelink')]
        x = F.one(rl, 'telling the element its new place')
        chk_at_least(F.gate(x), band(last, bnot(cmp_lt0(i0))), 'remove: telling the element its new place', x)
        if not before(e, x): raise Bad('remove: the element is told before it is moved', x)
        a = F.a(x, 1)
        if not (a.op == 'adx' and a.a[0] is fld(me, D) and a.a[1] == ((i0, 8),)): raise (Unk('element told') if opaque(a) else Bad('remove: told about %s' % show(a)[:80], x))
    r.ob('C17', 'removing an element fills its place with the last one', remove)
    def itera():
        for nm in ('k_vec_iter', 'k_vec_citer'): foldall(F=k(r, nm), cells=fld(k(r, nm).A(0), D), n=fld(k(r, nm).A(0), S), ctx='iteration')
    r.ob('C17', 'iteration visits every element once, in order', itera)
def foldall(F, cells, n, ctx, lo=const(0)):
    """the accumulator of UFold goes through cells[lo..n-1] in order"""
    c = F.one([x for x in F.events if x.kind == 'call' and x.name.startswith('UFold')], 'visiting')
    ts = F.under(c)
    if len(ts) != 1: raise (Bad(ctx + ': no loop', c) if not ts else Unk('nest'))
    t = ts[0]
    chk(F.gate(c), TRUE, ctx + ': visiting an element', c)
    if t.kind == 'idx':
        idxloop(F, t, ctx)
        x = F.a(c, len(c.args) - 1)
        i = x.a[1] if x.op == 'at' else None
        if i is None or x.a[0] is not cells: raise Unk('element')
        c0, d = lin_of(i)
        if d != {t.phi: 1}: raise Unk('index')
        val(add(F.S(t.lo), const(c0)), lo, ctx + ': first', c); val(add(F.S(t.hi), const(c0)), n, ctx + ': last', c)
    elif t.kind == 'ptr':
        if t.early: raise Bad(ctx + ': may stop early', c)
        raise Unk('pointer loop')
    else: raise Unk('loop')
    val(F.retval(), F.S(F.retval()), ctx)
