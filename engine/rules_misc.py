"""Arrays and matrices (C28), hash codes (C25), ranges (C29), sorting (C27), disjoint sets (C26)."""
from rules import *
from rules_cont import k, fin, newarr, alloc_of, stores_to, each, foldall, same_field, untouched, retis, retb, IX, idxloop
from rules_iter import ev as evalt, evb as evalb, M64
from rules_set import Quant, tmap, sat
import rules_set, itertools

TAB, MX, DIMS = 'f0', 'FArray._mx', 'FMatrix._dims'
def sx(v): return v - (1 << 64) if v is not None and v >> 63 else v

# ---------------------------------------------------------------- C28 -------
def poly(t):
    """polynomial over the non-arithmetic subterms: {sorted monomial: coefficient}; None if not arithmetic"""
    if isc(t): return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'lin':
        r = {(): t.a[0]} if t.a[0] else {}
        for x, c in t.a[1]:
            p = poly(x)
            if p is None: return None
            for m, v in p.items(): r[m] = r.get(m, 0) + c * v
        return {m: v for m, v in r.items() if v}
    if t.op == 'mul':
        r = {(): 1}
        for x in t.a:
            p = poly(x)
            if p is None: return None
            q = {}
            for m, v in r.items():
                for n, w in p.items():
                    z = tuple(sorted(m + n, key=lambda y: y.id)); q[z] = q.get(z, 0) + v * w
            r = q
        return {m: v for m, v in r.items() if v}
    if t.op in ('trunc', 'sext', 'zext') and isinstance(t.a[-1], T): return poly(t.a[-1])
    if t.op in ('fld', 'at', 'arg', 'cfield', 'exv', 'phi', 'call', 'ld'): return {(t,): 1}
    return None
def pev(p, env):
    s = 0
    for m, c in p.items():
        v = c
        for x in m:
            if x not in env: return None
            v *= env[x]
        s += v
    return s
def pvars(p): return {x for m in p for x in m}
def bychecked(F, me, n, ctx, keep=None, care=TRUE):
    """the cells of me are a new array of n cells (none needed for 0)"""
    d = fin(F, me, TAB)
    for g, v in ite_cases(d):
        g = band(g, care)
        if not satis(g): continue
        if v is NULL:
            if not entails(g, cmp_lt0(add(n, const(-1)))) and not entails(g, cmp_eq0(n)): raise Bad('%s: no cells although there are %s elements' % (ctx, show(n)[:60]))
            continue
        if keep is not None and v is keep[0]:
            if not entails(g, keep[1]): raise Bad('%s: the old cells are kept although there may not be enough (%s)' % (ctx, bshow(g)[:150]))
            continue
        a = alloc_of(F, v)
        if a is None:
            if v is fld(me, TAB) or opaque(v): raise Unk(ctx + ': cells')
            raise Bad('%s: the cells are %s' % (ctx, show(v)[:80]))
        _, m, es = newarr(F, a)
        if es != 8: raise Unk('element size')
        if m is n: continue
        c, e = lin_of(add(m, n, -1))
        if not e and c > 0: continue
        if not e and c < 0: raise Bad('%s: fewer cells than elements' % ctx, a)
        val(m, n, ctx + ': number of cells', a, care=g)
    return ite([(constrain(g, care), v) for g, v in ite_cases(d) if satis(band(g, care))])
@rule('C28')
def arrays(r):
    TG = 'C28'
    def create():
        F = k(r, 'k_fa_new'); me, n = F.A(0), F.A(1)
        same_field(F, me, MX, n, 'new array: size'); bychecked(F, me, n, 'new array')
    r.ob(TG, 'a new array has as many cells as announced', create)
    def fill():
        F = k(r, 'k_fa_fill'); me, n = F.A(0), F.A(1)
        same_field(F, me, MX, n, 'filled array: size'); d = bychecked(F, me, n, 'filled array')
        each(F, d, const(0), n, lambda i: fld(F.A(2), 'f0'), 'filled array', TRUE)
    r.ob(TG, 'an array made with a value has it in every cell', fill)
    def copy():
        F = k(r, 'k_fa_copy'); me, o = F.A(0), F.A(1)
        same_field(F, me, MX, fld(o, MX), 'copy: size'); d = bychecked(F, me, fld(o, MX), 'copy')
        each(F, d, const(0), fld(o, MX), lambda i: at(fld(o, TAB), i), 'copy', TRUE)
        untouched(F, {o}, 'copy')
    r.ob(TG, 'a copy has the same elements in cells of its own', copy)
    def assign():
        F = k(r, 'k_fa_assign'); me, o = F.A(0), F.A(1); two = ne(me, o)
        same_field(F, me, MX, fld(o, MX), 'assignment: size', two)
        d = bychecked(F, me, fld(o, MX), 'assignment', (fld(me, TAB), bnot(cmp_lt0(add(fld(me, MX), fld(o, MX), -1)))), two)
        each(F, d, const(0), fld(o, MX), lambda i: at(fld(o, TAB), i), 'assignment', two)
        untouched(F, {o}, 'assignment')
    r.ob(TG, 'assignment makes the same elements, in cells of its own', assign)
    def moves():
        for nm in ('k_fa_move', 'k_fa_massign'):
            F = k(r, nm); me, o = F.A(0), F.A(1)
            for f in (TAB, MX): same_field(F, me, f, fld(o, f), 'move: ' + ('cells' if f == TAB else 'size'), ne(me, o))
            d, m = fin(F, o, TAB), fin(F, o, MX)
            for g, v in ite_cases(d):
                for h, w in ite_cases(m):
                    c = band(g, h, ne(me, o))
                    if not satis(c): continue
                    if v is fld(o, TAB): raise Bad('move: both arrays own the same cells')
                    if v is NULL and w is fld(o, MX): raise Bad('move: the array moved from has no cells but keeps its size')
                    if v is NULL and isc(w) and w.a[0] != 0: raise Bad('move: the array moved from has no cells but size %s' % show(w))
    r.ob(TG, 'moving hands over the cells and leaves an empty array', moves)
    def access():
        F = k(r, 'k_fa_size'); retis(F, fld(F.A(0), MX), 'size')
        for nm in ('k_fa_at', 'k_fa_cat'):
            F = k(r, nm); v = F.retval()
            want = mk('adx', fld(F.A(0), TAB), ((F.A(1), 8),))
            if v is not want:
                if v.op == 'adx' and v.a[0] is fld(F.A(0), TAB): raise Bad('indexing gives the cell at %s' % show(v)[:80])
                raise Unk('indexing')
            if F.stores(): raise Bad('indexing writes', F.stores()[0])
    r.ob(TG, 'indexing reaches the cell of that index', access)
    def itera():
        F = k(r, 'k_fa_iter'); foldall(F, fld(F.A(0), TAB), fld(F.A(0), MX), 'iteration over an array')
    r.ob(TG, 'iteration visits every element once, in order', itera)
    def equal():
        F = k(r, 'k_farray_eq'); a, b = F.A(0), F.A(1); ctx = 'equality of arrays'
        mxs = (fld(a, MX), fld(b, MX))
        def un(t): return tmap(F.g, t, lambda x: x.a[1] if x.op == 'trunc' and x.a[0] == 32 and x.a[1] in mxs else None)
        class Q(Quant):
            def S(self, t): return un(self.v.S(t)) if t.op != 'ite' else ite([(g, un(v)) for g, v in ite_cases(self.v.S(t))])
        size = cmp_eq(*mxs)
        q = Q(F, {a: (fld(a, TAB), fld(a, MX)), b: (fld(b, TAB), fld(b, MX))}, ctx)
        q.got = un(q.got)
        if satis(band(q.got, bnot(size))): raise Bad(ctx + ': arrays of different sizes can be equal', F.g.rets[0])
        q.got = constrain(q.got, size)
        for z, (ent, lo, hi, c, t) in list(q.q.items()):
            ent = constrain(un(ent), size); f = lambda x: subst(F.g, x, mxs[1], mxs[0])
            q.q[z] = (ent, f(lo), f(hi), c, t)
        q.sets = {a: (fld(a, TAB), mxs[0]), b: (fld(b, TAB), mxs[0])}
        q.decide(cmp_eq(rules_set.word(fld(a, TAB), mxs[0]), rules_set.word(fld(b, TAB), mxs[0])) if False else rules_set.eqwords(rules_set.word(fld(a, TAB), mxs[0]), rules_set.word(fld(b, TAB), mxs[0])))
    r.ob(TG, 'two arrays are equal when they have the same size and elements', equal)
def dimat(F, me, i): return fld(me, DIMS if i == 0 else DIMS + '@%d' % (4 * i))
@rule('C28')
def matrices(r):
    TG = 'C28'
    def index(nm, ar):
        def go():
            F = k(r, nm); me = F.A(0); v = F.retval()
            if v.op == 'ite': raise Unk('index')
            flat = fld(me, TAB)
            if v is flat: ix = const(0)
            elif v.op == 'adx' and v.a[0] is flat:
                ix = const(0)
                for x, c in v.a[1]:
                    if c % 8: raise Unk('stride')
                    ix = add(ix, mulc(x, c // 8))
            elif v.op == 'adx' and v.a[0].op == 'adr' and v.a[0].a[0] is flat and re.match(r'f\d+$', v.a[0].a[1]):
                ix = const(int(v.a[0].a[1][1:]) // 8)
                for x, c in v.a[1]:
                    if c % 8: raise Unk('stride')
                    ix = add(ix, mulc(x, c // 8))
            elif v.op == 'adr' and v.a[0] is flat: raise Bad('matrix: every index gives the same cell')
            else: raise Unk('matrix: cell %s' % show(v)[:100])
            p = poly(ix)
            if p is None: raise Unk('matrix: index %s' % show(ix)[:100])
            idx = [F.A(1 + i) for i in range(ar)]; ds = [dimat(F, me, i) for i in range(ar)]
            e = poly(idx[0])
            for i in range(1, ar):
                q = {}
                for m, c in e.items():
                    z = tuple(sorted(m + (ds[i],), key=lambda y: y.id)); q[z] = q.get(z, 0) + c
                q[(idx[i],)] = q.get((idx[i],), 0) + 1
                e = q
            if p == e: return
            if not pvars(p) <= set(idx) | set(ds): raise Unk('matrix: index %s' % show(ix)[:100])
            for dv in ((2, 3, 5)[:ar], (5, 3, 2)[:ar], (4, 4, 3)[:ar], (1, 7, 2)[:ar], (3, 1, 4)[:ar]):
                seen = {}; size = 1
                for z in dv: size *= z
                for iv in itertools.product(*[range(z) for z in dv]):
                    x = pev(p, {**dict(zip(idx, iv)), **dict(zip(ds, dv))})
                    if not 0 <= x < size: raise Bad('matrix: index %s of a matrix of dimensions %s is cell %d, of %d' % (iv, dv, x, size))
                    if x in seen: raise Bad('matrix: indices %s and %s of a matrix of dimensions %s share a cell' % (seen[x], iv, dv))
                    seen[x] = iv
            raise Unk('matrix: index %s' % show(ix)[:100])
        r.ob(TG, 'different indices of a %d-dimensional matrix have cells of their own, within the matrix' % ar, go)
    index('k_matrix_at', 2); index('k_matrix_at3', 3)
    def local(F, b, i):
        """element i of an array on the stack, filled cell by cell before use"""
        vs = [e for e in F.events if e.kind == 'store' and psplit(e.ptr)[0] is b]
        out = {}
        for e in vs:
            _, o, ix, _ = psplit(e.ptr)
            if ix or F.under(e) or e.gate is not TRUE or o in out: return None
            out[o] = F.val(e)
        return out
    def made(nm, ar, dims):
        def go():
            F = k(r, nm); me = F.A(0)
            n = fin(F, me, MX)
            d = bychecked(F, me, n, 'matrix')
            env = dims(F)
            def dim(t):
                """which dimension a term is"""
                for i, x in enumerate(env):
                    if t is x: return i
                if t.op == 'at' and isc(t.a[1]) :
                    z = local(F, t.a[0], t.a[1]) if t.a[0].op == 'alloca' else None
                    if z: return dim(z.get(4 * t.a[1].a[0], UNDEF))
                if t.op == 'fld' and t.a[0].op == 'alloca':
                    z = local(F, t.a[0], None); m = re.match(r'f(\d+)$', t.a[1])
                    if z and m: return dim(z.get(int(m.group(1)), UNDEF))
                return None
            def elem(t, i):
                """t is dimension i, i the index of a loop"""
                if t.op != 'at' or t.a[1] is not i: return False
                b = t.a[0]
                if b.op == 'alloca':
                    z = local(F, b, None)
                    if z is None: raise Unk('dimensions')
                    if len(z) < ar: raise Bad('matrix: a dimension is not set')
                    ds_ = [dim(z.get(4 * j, UNDEF)) for j in range(ar)]
                    if None not in ds_ and ds_ != list(range(ar)): raise Bad('matrix: the dimensions are taken in the order %s' % ds_)
                    return None not in ds_
                return b is F.A(1)
            # number of cells
            if n.op == 'phi':
                t = next((t for t in F.loops() if n in F.g.loops[t.h].phis), None)
                if t is None: raise Unk('number of cells')
                idxloop(F, t, 'number of cells')
                if not isc(F.S(t.lo)) or not isc(F.S(t.hi)): raise Unk('number of cells')
                lo, hi = F.S(t.lo).a[0], F.S(t.hi).a[0]
                ini, bk = F.S(F.g.loops[t.h].phis[n][1]), F.S(n.info['back'])
                if bk.op in ('trunc', 'and') and n.op == 'phi' and any(y.op == 'mul' and n in y.a for y in subterms(bk)):
                    w_ = bk.a[0] if bk.op == 'trunc' else next((y.a[0].bit_length() for y in bk.a if isc(y) and y.a[0] > 0), 64)
                    if isinstance(w_, int) and w_ < 31: raise Bad('matrix: the number of cells is cut to %d bits' % w_)
                if bk.op != 'mul' or n not in bk.a or len(bk.a) != 2: raise (Unk('number of cells') if opaque(bk) and bk.op != 'lin' else Bad('matrix: the number of cells is not the product of the dimensions'))
                if not isc(ini): raise Unk('number of cells')
                if ini.a[0] < 1: raise Bad('matrix: the number of cells starts at %s' % show(ini))
                o = [x for x in bk.a if x is not n]
                if not o: raise Bad('matrix: the number of cells is squared')
                o = o[0]; c = 0
                if o.op == 'at': c, dd = lin_of(o.a[1]); 
                else: raise Unk('number of cells')
                if dd != {t.phi: 1}: raise Unk('number of cells')
                if not elem(mk('at', o.a[0], t.phi), t.phi): raise Unk('dimensions')
                if (lo + c, hi + c) != (0, ar): raise Bad('matrix: the number of cells is the product of dimensions %d to %d of %d' % (lo + c, hi + c - 1, ar))
            else:
                p = poly(n)
                if p is None: raise Unk('number of cells')
                q = {}
                for m, c in p.items():
                    z = tuple(sorted(-1 if dim(x) is None else dim(x) for x in m)); q[z] = q.get(z, 0) + c
                if q != {tuple(range(ar)): 1}:
                    if any(-1 in z for z in q): raise Unk('number of cells')
                    for dv in itertools.product((1, 2, 3, 5), repeat=ar):
                        s, w = 0, 1
                        for z, c in q.items():
                            y = c
                            for i in z: y *= dv[i]
                            s += y
                        for z in dv: w *= z
                        if s < w: raise Bad('matrix: %d cells for dimensions %s' % (s, dv))
            # dimensions kept
            b = mk('adr', me, DIMS)
            ws = stores_to(F, b); ls = [e for e in F.stores() if any(x.op == 'fld' and x.a[0] is me and x.a[1].startswith(DIMS) for _, x in ite_cases(F.lv(e)))]
            if ws and any(F.under(e) for e, _ in ws):
                e, i = F.one([e for e, _ in ws], 'dimensions'), None
                ts = F.under(e); t = ts[-1]
                if len(ts) != 1: raise Unk('nest')
                idxloop(F, t, 'dimensions')
                i = [i for x, i in ws if x is e][0]; c, dd = lin_of(i)
                if dd != {t.phi: 1}: raise Unk('dimensions')
                if add(F.S(t.lo), const(c)) is not const(0) or add(F.S(t.hi), const(c)) is not const(ar): raise (Unk if opaque(F.S(t.hi)) or opaque(F.S(t.lo)) else Bad)('matrix: not all dimensions are kept')
                chk(F.gate(e), TRUE, 'matrix: keeping a dimension', e)
                v = F.val(e)
                if not elem(v, i): raise (Unk('dimensions') if v.op not in ('at', 'c') else Bad('matrix: the dimension kept is %s' % show(v)[:60], e))
            else:
                for i in range(ar):
                    x = [e for e in F.stores() if F.lv(e) is dimat(F, me, i)]
                    if not x:
                        if bulkdims(F, me): raise Unk('dimensions')
                        raise Bad('matrix: dimension %d is not kept' % i)
                    j = dim(F.val(x[0]))
                    if j is None: raise Unk('dimensions')
                    if j != i: raise Bad('matrix: dimension %d is kept as dimension %d' % (j, i), x[0])
        r.ob(TG, 'a new %d-dimensional matrix has a cell for every index and knows its dimensions' % ar, go)
    def bulkdims(F, me): return [e for e in F.events if e.kind in ('copy', 'set') and psplit(e.ptr)[0] is me] or any(t.kind == '?' for t in F.loops())
    made('k_m2_new', 2, lambda F: [F.A(1), F.A(2)])
    made('k_m3_new', 3, lambda F: [mk('fld', F.A(1), 'f0'), mk('fld', F.A(1), 'f4'), mk('fld', F.A(1), 'f8')])
    def copies(nm, care_):
        def go():
            F = k(r, nm); me, o = F.A(0), F.A(1); two = ne(me, o)
            ctx = 'matrix assignment' if care_ else 'matrix copy'
            same_field(F, me, MX, fld(o, MX), ctx + ': number of cells', two)
            d = bychecked(F, me, fld(o, MX), ctx, (fld(me, TAB), bnot(cmp_lt0(add(fld(me, MX), fld(o, MX), -1)))) if care_ else None, two)
            each(F, d, const(0), fld(o, MX), lambda i: at(fld(o, TAB), i), ctx, None)
            cs = [e for e in F.events if e.kind == 'copy' and psplit(e.ptr)[0] is me]
            if cs: raise Unk('dimensions')
            if any(F.lv(e) is dimat(F, me, 0) for e in F.stores()):
                for i in range(3): same_field(F, me, dimat(F, me, i).a[1], dimat(F, o, i), ctx + ': dimension', two)
            else: each(F, mk('adr', me, DIMS), const(0), const(3), lambda i: at(mk('adr', o, DIMS), i), ctx + ': dimensions', TRUE)
            untouched(F, {o}, ctx)
        r.ob(TG, 'matrix: ' + ('assignment' if care_ else 'copy') + ' has the same dimensions and elements, in cells of its own', go)
    copies('k_m3_copy', False); copies('k_m3_assign', True)

# ---------------------------------------------------------------- C25 -------
def defs(F):
    """loop variable -> (loop, init, back)"""
    out = {}
    for h, L in F.g.loops.items():
        for q, (ins, init) in L.phis.items():
            if isinstance(q, T) and q.info.get('back') is not None: out[q] = (F.v.trav[h], F.S(init), F.S(q.info['back']))
    return out
@rule('C25')
def hashes(r):
    TG = 'C25'
    def slice_(F, seeds, stop, cells):
        """what the value is made of: the terms at the end of the chains of definitions; cells = bases whose elements are data"""
        D = defs(F); seen = set(); leaves = []
        def atomsof(f):
            for a in atoms_of(f): term(a.a[0]) if a.op in ('eq0', 'lt0') else term(a) if a.op in ('phi', 'exit') else leaves.append(a)
        def term(t):
            if t in seen or t in stop: return
            seen.add(t)
            if isc(t): return
            if t.op == 'at' and t.a[0] in cells: term(t.a[1]); leaves.append(t); return
            if t.op == 'phi':
                if t not in D: leaves.append(t); return
                tr, ini, bk = D[t]
                term(ini); term(bk)
                for x in tr.exits: atomsof(F.v.SB(x[2]))
                return
            if t.op in ('fld', 'at', 'call', 'pcall', 'arg', 'ld', 'adr', 'adx', 'alloca'): leaves.append(t); return
            for z in t.a: sub(z)
        def sub(z):
            if isinstance(z, Bdd): atomsof(z)
            elif isinstance(z, T): term(z)
            elif isinstance(z, tuple):
                for w in z: sub(w)
        for s in seeds: sub(s)
        return leaves
    def within(F, t, lo, hi, ctx):
        """loop t goes through lo..hi-1"""
        idxloop(F, t, ctx)
        if F.S(t.lo) is not lo: raise Unk(ctx + ': first')
        if F.S(t.hi) is not hi: return F.S(t.hi)
        return None
    def loopof(F, leaf, ctx):
        ts = [t for t in F.loops() if t.phi is not None and occurs(leaf, t.phi)]
        if len(ts) != 1: raise Unk(ctx + ': loop')
        return ts[0]
    def elems(F, cells, n, ctx, ok=()):
        """the value depends on nothing but cells[0..n-1] and n"""
        v = F.retval()
        ls = slice_(F, [v], {n}, {cells})
        for l in ls:
            if l in ok: continue
            if l.op == 'at' and l.a[0] is cells:
                i = l.a[1]
                if isc(i):
                    if isc(n) and 0 <= i.a[0] < n.a[0]: continue
                    raise Unk(ctx + ': fixed element')
                continue
            if l.op in ('fld', 'arg', 'alloca') : raise Bad('%s depends on %s, which two equal ones may not share' % (ctx, show(l)[:60]), F.g.rets[0])
            raise Unk('%s depends on %s' % (ctx, show(l)[:80]))
        for l in ls:
            if l.op != 'at' or isc(l.a[1]): continue
            t = loopof(F, l, ctx)
            if t.kind not in ('idx', 'vec'): raise Unk(ctx + ': loop')
            c, d = lin_of(l.a[1])
            if d == {t.phi: 1}: lo, hi = add(F.S(t.lo), const(c)), add(F.S(t.hi), const(c))
            else: raise Unk(ctx + ': index')
            if t.step != 1: raise Unk(ctx + ': order')
            if isc(lo) and lo.a[0] < 0: raise Bad('%s reads before the first element' % ctx)
            yield l, t, lo, hi
    def nat():
        F = k(r, 'k_natset_hash'); me = F.A(0); ctx = 'hash of a fixed-size set'
        for l, t, lo, hi in elems(F, me, const(3), ctx):
            if not isc(hi) or not isc(lo): raise Unk(ctx + ': loop')
            if hi.a[0] > 3: raise Bad('%s reads past the last word' % ctx)
    r.ob(TG, 'fixed-size set: the hash code depends on the elements only', nat)
    def arr():
        F = k(r, 'k_farray_hash'); me = F.A(0); ctx = 'hash of an array'; n = fld(me, MX)
        for l, t, lo, hi in elems(F, fld(me, TAB), n, ctx, ok=(n,)):
            if hi is not n:
                c, d = lin_of(add(hi, n, -1))
                if not d and c > 0: raise Bad('%s reads past the last element' % ctx)
                if not (not d and c < 0) and not isc(hi): raise Unk(ctx + ': last element')
                if isc(hi): raise Bad('%s reads %s elements, whatever the size' % (ctx, show(hi)))
    r.ob(TG, 'array: the hash code depends on size and elements only', arr)
    def gn():
        F = k(r, 'k_gnset_hash'); me = F.A(0); ctx = 'hash of a set'
        tt, n = fld(me, 'GNSet._t'), fld(me, 'f0')
        D = defs(F)
        v = F.retval()
        # the number of words that matter: found by going back over the words that are zero
        trims = {}
        for t in F.loops():
            L = F.g.loops[t.h]
            for q in L.phis:
                if isinstance(q, T) and q in D and q.op == 'phi' and D[q][1] is n and add(D[q][2], q, -1) is const(-1): trims[q] = t
                elif isinstance(q, T) and q in D and D[q][1] is add(n, const(-1)) and add(D[q][2], q, -1) is const(-1): trims[q] = t
        ls = slice_(F, [v], set(trims), {tt})
        for l in ls:
            if l.op == 'at' and l.a[0] is tt: continue
            if l is n: continue
            if l.op in ('fld', 'arg') and (l.a[0] is me or l.op == 'arg'): raise Bad('%s depends on %s, which two equal sets need not share' % (ctx, show(l)[:60]), F.g.rets[0])
            raise Unk('%s depends on %s' % (ctx, show(l)[:80]))
        used = {q for q in trims}
        accs = [(q, d) for q, d in D.items() if d[0].kind in ('idx', 'vec', '?') and any(s.op == 'at' and s.a[0] is tt for s in subterms(d[2])) and q not in trims]
        for q, (t, ini, bk) in accs:
            if t.kind not in ('idx', 'vec') or t.early:
                ws = {s for s in subterms(bk) if s.op == 'at' and s.a[0] is tt}
                ps = [p for p in F.g.loops[t.h].phis if isinstance(p, T)]
                look = [y for x in t.exits for a in atoms_of(F.v.SB(x[2])) for y in subterms(a) if y.op in ('at', 'ld', 'fld') and any(occurs(y, p) for p in ps)]
                if len(ws) == 1 and not look and len(F.loops()) == 1:
                    w = ws.pop(); y = evalt(bk, {w: 0, q: 5, **{p: 0 for p in ps if p is not q}})
                    if y is not None and y != 5: raise Bad('%s: at most some of the words that are zero at the end are left out, so equal sets of different capacity differ' % ctx, F.g.rets[0])
                raise Unk(ctx + ': loop')
            ws = {s for s in subterms(bk) if s.op == 'at' and s.a[0] is tt}
            if len(ws) != 1: raise Unk(ctx + ': words')
            w = ws.pop(); c, d = lin_of(w.a[1])
            if d != {t.phi: 1}: raise Unk(ctx + ': index')
            lo, hi = F.S(t.lo), F.S(t.hi)
            if t.step != 1: raise Unk(ctx + ': order')
            lo, hi = add(lo, const(c)), add(hi, const(c))
            if isc(lo) and lo.a[0] < 0: raise Bad('%s reads before the first word' % ctx)
            hq = [z for z in lin_of(hi)[1] if z in trims]
            if hq:
                z = hq[0]; tr = trims[z]
                ofs = add(hi, z, -1); first = D[z][1]
                # z counts words (starts at n, looks at z-1) or is an index (starts at n-1, looks at z)
                at_ = add(z, const(-1)) if first is n else z; cnt = z if first is n else add(z, const(1))
                go = F.v.SB(tr.cont) if tr.cont is not None else None
                full = TRUE
                for x in tr.exits: full = band(full, bnot(F.v.SB(x[2])))
                zero = cmp_eq0(at(tt, at_)); some_ = bnot(cmp_lt0(add(cnt, const(-1))))
                ne0 = bnot(cmp_eq0(cnt))
                pos = bnot(cmp_lt0(cnt))
                if not same(full, band(some_, zero), pos) and not same(full, band(ne0, zero), pos):
                    if any(opaque(a) and not occurs(a, z) for a in atoms_of(full)): raise Unk(ctx + ': trailing words')
                    ws2 = {s for a in atoms_of(full) for s in subterms(a) if s.op == 'at'}
                    if ws2 and any(w2.a[0] is tt and w2.a[1] is not at_ and set(lin_of(w2.a[1])[1]) == {z} for w2 in ws2): raise Bad('%s: looks at word %s to find the last word that matters' % (ctx, show(list(ws2)[0].a[1])))
                    if entails(full, band(some_, zero)) and not entails(band(some_, zero, pos), full): raise Bad('%s: does not go back over all words that are zero: [%s]' % (ctx, bshow(full)[:120]))
                    if entails(band(full, bnot(zero)), FALSE): raise Unk(ctx + ': trailing words')
                    raise Bad('%s: goes back over words as long as [%s], should while [%s]' % (ctx, bshow(full)[:120], bshow(band(some_, zero))[:120]))
                dlt = add(hi, cnt, -1)
                if not isc(dlt): raise Unk(ctx + ': last word')
                if dlt.a[0] > 0: raise Bad('%s: goes on after the last word that matters' % ctx)
                if dlt.a[0] < 0: raise Unk(ctx + ': last word')
                continue
            if isc(hi): raise Unk(ctx + ': fixed number of words') if not isc(lo) else Bad('%s reads %s words, whatever the capacity' % (ctx, show(hi)))
            if hi is n or isc(add(hi, n, -1)):
                # all words: those that are zero must not matter
                z0 = subst(F.g, bk, w, const(0))
                if z0 is q: continue
                for acc in (1, 5, 0x123456789abcdef, 1 << 63):
                    for ix in (0, 1, 5):
                        y = evalt(bk, {w: 0, q: acc, t.phi: ix})
                        if y is None: raise Unk(ctx + ': words that are zero')
                        if y != acc: raise Bad('%s: words that are zero at the end change it, so equal sets of different capacity differ' % ctx, F.g.rets[0])
                raise Unk(ctx + ': words that are zero')
            raise Unk(ctx + ': last word')
        # outside the loops nothing but the accumulators
        ends = slice_(F, [v], {q for q, _ in accs} | set(trims), {tt})
        if any(l is n for l in ends): raise Bad('%s depends on the capacity' % ctx, F.g.rets[0])
        if any(l.op == 'at' for l in ends): raise Unk(ctx + ': word outside the loop')
        for q, (t, ini, bk) in accs:
            if any(s is n for s in subterms(ini)) or any(s is n for s in subterms(bk)): raise Bad('%s depends on the capacity' % ctx, F.g.rets[0])
    r.ob(TG, 'growable set: the hash code depends on the elements only, never on the capacity', gn)

# ---------------------------------------------------------------- C29 -------
GRID = range(-5, 6)
def small(F, t, vars_, expect, care, ctx, what):
    """t (term or formula over differences of vars_ and small constants) is expect(values) wherever care.
    Both sides are piecewise linear with breaks at small differences: agreeing on a grid around the origin is agreeing everywhere."""
    bad = []
    def okterm(x):
        if isc(x): return True
        if x in vars_: return True
        if x.op == 'lin': return all(y in vars_ or y.op in ('b2i', 'ite') and okterm(y) for y, c in x.a[1]) and all(abs(c) <= 2 for _, c in x.a[1]) and abs(x.a[0]) <= 3
        if x.op == 'ite': return all(okform(g) and okterm(v) for g, v in x.a)
        if x.op == 'b2i': return okform(x.a[0])
        return False
    def okform(f): return all(a.op in ('eq0', 'lt0') and okterm(a.a[0]) for a in atoms_of(f))
    ok = okform(t) if isinstance(t, Bdd) else okterm(t)
    if not ok: raise Unk('%s: %s' % (ctx, (bshow(t) if isinstance(t, Bdd) else show(t))[:120]))
    for vs in itertools.product(GRID, repeat=len(vars_)):
        if not care(*vs): continue
        env = {x: v & M64 for x, v in zip(vars_, vs)}
        got = evalb(t, env) if isinstance(t, Bdd) else sx(evalt(t, env))
        w = expect(*vs)
        if got is None: raise Unk(ctx)
        if got != w: raise Bad('%s: %s is %s, should be %s' % (ctx, what % vs, got, w), F.g.rets[0] if F.g.rets else None)
def span(f, t): return list(range(f, t)) if f <= t else list(range(f, t, -1))
@rule('C29')
def ranges(r):
    TG = 'C29'
    ft = lambda o: [fld(o, 'f0'), fld(o, 'Range._to')]
    def size():
        F = k(r, 'k_rg_size'); small(F, F.retval(), ft(F.A(0)), lambda f, t: len(span(f, t)), lambda *a: True, 'size', 'of the range from %d to %d')
    r.ob(TG, 'the size is the number of values visited', size)
    def contains():
        F = k(r, 'k_rg_contains'); small(F, F.retbool(), ft(F.A(0)) + [F.A(1)], lambda f, t, p: p in span(f, t), lambda *a: True, 'membership', 'of the range from %d to %d, for %d,')
    r.ob(TG, 'a value is contained exactly if it is visited', contains)
    def made(nm, ctx, expect, own=False):
        def go():
            F = k(r, nm); vs = ft(F.A(0)) if own else [F.A(0), F.A(1)]
            a = F.g.args[0] if F.g.f['args'] and F.g.f['args'][0].get('sret') else None
            if a is not None: f_, t_ = F.sret(0, 4, 'i32'), F.sret(4, 4, 'i32', (('class.Range', 1),))
            else:
                # returned in a register: the two fields of the local result
                st = {}
                for e in F.events:
                    if e.kind == 'store' and psplit(e.ptr)[0].op == 'alloca': st.setdefault(psplit(e.ptr)[0], []).append(e)
                if not st: raise Unk(ctx)
                raise Unk(ctx)
            got = {}
            for nm2, x in (('from', f_), ('to', t_)): got[nm2] = x
            def val_(x, env): return sx(evalt(x, env))
            # structure first: both ends piecewise linear
            small(F, f_, vs, lambda f, t: val_(f_, {v: z & M64 for v, z in zip(vs, (f, t))}), lambda *z: True, ctx, 'of %d,%d')
            small(F, t_, vs, lambda f, t: val_(t_, {v: z & M64 for v, z in zip(vs, (f, t))}), lambda *z: True, ctx, 'of %d,%d')
            for z in itertools.product(GRID, repeat=2):
                env = {v: y & M64 for v, y in zip(vs, z)}
                a_, b_ = val_(f_, env), val_(t_, env)
                if span(a_, b_) != expect(*z): raise Bad('%s: for %d,%d it visits %s, should visit %s' % (ctx, z[0], z[1], span(a_, b_), expect(*z)), F.g.rets[0])
        r.ob(TG, ctx, go)
    up = lambda f, t: list(range(f, t))
    both = lambda f, t: list(range(f, t + 1)) if f <= t else list(range(f, t - 1, -1))
    made('k_rg_open', 'an open range leaves out its end', span)
    made('k_rg_close', 'a closed range has both ends, in either direction', both)
    made('k_rg_openInc', 'an increasing open range is empty if the end is below the start', lambda f, t: up(f, t))
    made('k_rg_closeInc', 'an increasing closed range has both ends and is empty if the end is below the start', lambda f, t: up(f, t + 1))
    made('k_rg_flip', 'flipping a range visits the same values the other way round', lambda f, t: span(f, t)[::-1], True)
    made('k_rg_copy', 'a copied range is the same', span, True)
    made('k_rg_move', 'a moved range is the same', span, True)
    def walk(nm):
        def go():
            F = k(r, nm); f, t = ft(F.A(0)); ctx = 'iteration over a range'
            c = F.one([e for e in F.events if e.kind == 'call' and e.name.startswith('UTerm')], 'visiting')
            ts = F.under(c)
            if len(ts) != 1: raise (Bad(ctx + ': no loop', c) if not ts else Unk('nest'))
            tr = ts[0]; chk(F.gate(c), TRUE, ctx + ': visiting a value', c)
            x = F.a(c, len(c.args) - 1)
            D = {q: d for q, d in defs(F).items() if d[0] is tr}
            ps = [q for q in D if occurs(x, q)]
            if len(ps) != 1: raise Unk(ctx + ': position')
            p = ps[0]; _, ini, bk = D[p]
            inv = lambda a, b, q: (a <= q <= b) if a <= b else (b <= q <= a)
            # the position from which the value visited is computed
            small(F, ini, [f, t], lambda a, b: a, lambda *z: True, ctx, 'the first position from %d to %d') if x is p else None
            if x is not p: raise Unk(ctx + ': value')
            stop = bor(*[F.v.SB(e[2]) for e in tr.exits])
            small(F, stop, [f, t, p], lambda a, b, q: q == b, inv, ctx, 'the end from %d to %d, at %d,')
            small(F, bk, [f, t, p], lambda a, b, q: q + (1 if a <= b else -1), lambda a, b, q: inv(a, b, q) and q != b, ctx, 'the next value from %d to %d after %d')
        r.ob(TG, 'iteration goes from the start to the end, one by one, in the right direction' + (' (post-increment)' if nm.endswith('p') else ''), go)
    walk('k_rg_iter'); walk('k_rg_iterp')

# ---------------------------------------------------------------- C27 -------
@rule('C27')
def sorting(r):
    TG = 'C27'
    def top():
        F = r.fn('cont', r'^k_msort\('); c, n, cmp_ = F.A(0), F.A(1), F.A(2)
        cs = [e for e in F.events if e.kind == 'call' and re.search(r'[sS]ortAux', e.name or '')]
        if not cs: raise Unk('sorting: no recursion')
        e = F.one(cs, 'sorting')
        if F.under(e): raise Unk('sorting in a loop')
        chk_at_least(F.gate(e), bnot(cmp_lt0(add(n, const(-2)))), 'sorting: two elements or more', e)
        v, lo, hi, cm, aux = [F.a(e, i) for i in range(5)]
        if v is not c: raise (Unk if opaque(v) else Bad)('sorting: the array sorted is %s' % show(v)[:60], e)
        val(lo, const(0), 'sorting: first element', e); val(hi, n, 'sorting: number of elements', e)
        if aux is c: raise Bad('sorting: the scratch array is the array itself', e)
        each(F, aux, const(0), n, lambda i: at(c, i), 'sorting: the scratch array starts as a copy', None)
        for x in F.stores():
            for t in F.under(x):
                if not loop_before(t.h, e.mem): raise Bad('sorting: the scratch array is filled after it is used', x)
    r.ob(TG, 'the elements are all sorted, with a copy of them as scratch', top)
    fs = [F for F in r.fns('cont', r'^(void )?mergeSortAux<long')]
    def aux():
        if len(fs) != 1: raise Unk('recursion')
        F = fs[0]; V, LO, HI, CMP, AUX = [F.A(i) for i in range(5)]
        facts = band(bnot(cmp_lt0(LO)), bnot(cmp_lt0(HI)), bnot(cmp_lt0(add(HI, LO, -1))))
        rc_ = [e for e in F.events if e.kind == 'call' and re.search(r'[sS]ortAux', e.name or '') and e.gate is not FALSE]
        many = cmp_lt0(add(add(LO, const(1)), HI, -1))        # two elements or more
        if len(rc_) != 2: raise (Bad('sorting: only %d half is sorted' % len(rc_)) if len(rc_) < 2 and not any(t.kind == '?' and not F.g.loops[t.h].phis for t in F.loops()) and rc_ else Unk('recursion'))
        A = [[F.a(e, i) for i in range(5)] for e in rc_]
        for e, a in zip(rc_, A):
            if F.under(e): raise Unk('recursion in a loop')
            chk_at_least(F.gate(e), band(facts, many), 'sorting a half', e)
            chk_imp(band(F.gate(e), facts), many, 'sorting a half (never ends otherwise)', e)
            if a[0] is not AUX or a[4] is not V:
                if a[0] is V and a[4] is AUX: raise Bad('sorting: the half is sorted in the array that is then overwritten', e)
                raise (Unk if opaque(a[0]) or opaque(a[4]) else Bad)('sorting: a half of %s' % show(a[0])[:60], e)
            if a[3] is not CMP: raise Unk('order')
        if A[0][1] is not LO: rc_.reverse(); A.reverse()
        if A[0][1] is not LO: raise (Unk if opaque(A[0][1]) or opaque(A[1][1]) else Bad)('sorting: no half starts at the first element', rc_[0])
        D = A[0][2]
        if A[1][2] is not HI: raise (Unk if opaque(A[1][2]) else Bad)('sorting: no half goes to the last element', rc_[1])
        if A[1][1] is not D: raise (Unk if opaque(A[1][1]) or opaque(D) else Bad)('sorting: the halves are up to %s and from %s' % (show(D)[:60], show(A[1][1])[:60]), rc_[1])
        for lo, hi in ((0, 2), (0, 3), (1, 3), (3, 5), (3, 6), (2, 9), (7, 9), (0, 100), (50, 53)):
            d = evalt(D, {LO: lo, HI: hi})
            if d is None: raise Unk('middle')
            if not lo < d < hi: raise Bad('sorting: elements %d to %d are split at %d' % (lo, hi - 1, d), rc_[0])
        half = lambda t: t in (add(LO, mk('lshr', add(HI, LO, -1), const(1))), mk('lshr', add(HI, LO), const(1)))
        if not half(D) and D not in (add(LO, const(1)), add(HI, const(-1))): raise Unk('middle %s' % show(D)[:80])
        merge(F, V, LO, D, HI, AUX, CMP, rc_)
    def merge(F, V, LO, D, HI, AUX, CMP, rc_):
        DD = defs(F); ctx = 'merging'
        ls = sorted([t for t in F.loops()], key=lambda t: t.h)
        ls = [t for t in ls if any(F.under(e) and F.under(e)[-1] is t for e in F.stores())]
        if not ls: raise (Bad('merging: nothing is merged') if not bulk_(F) else Unk('merging by blocks'))
        if bulk_(F): raise Unk('merging by blocks')
        if any(len(F.under(e)) != 1 for e in F.stores() if psplit(e.ptr)[0].op != 'alloca'): raise Unk('merging: outside a loop')
        # positions: i in the first half, j in the second, k in the result
        here = {'i': LO, 'j': D, 'k': None}
        dec = lambda t: t
        def kpos(x):
            """index in V of an address: (variable, offset)"""
            if x.op == 'phi': return x, 0
            if x.op == 'adr' and re.match(r'f-?\d+$', x.a[1]) and x.a[0].op == 'phi': return x.a[0], int(x.a[1][1:]) // 8
            if x.op == 'adx' and x.a[0] is V and len(x.a[1]) == 1 and x.a[1][0][1] == 8: return x.a[1][0][0], 0
            if x.op == 'adx' and x.a[0] is V and all(c == 8 for _, c in x.a[1]):
                s = const(0)
                for y, _ in x.a[1]: s = add(s, y)
                return s, 0
            return None
        def kadv(q, bk):
            """how far the position advances, per case"""
            out = []
            for g, v in ite_cases(bk):
                if v is q: out.append((g, 0)); continue
                if v.op == 'adr' and v.a[0] is q and re.match(r'f-?\d+$', v.a[1]): out.append((g, int(v.a[1][1:]) // 8)); continue
                d = add(v, q, -1)
                if not isc(d): raise Unk(ctx + ': position')
                out.append((g, d.a[0]))
            return out
        first = True
        for t in ls:
            es = [e for e in F.stores() if F.under(e) and F.under(e)[-1] is t]
            if any(not before(x, e) for x in rc_ for e in es): raise Bad('merging: before the halves are sorted', es[0])
            cur = {}
            mine = {q: d for q, d in DD.items() if d[0] is t}
            # what is stored from where
            st = []
            for e in es:
                for g0, v in ite_cases(F.val(e)):
                    if v.op != 'at' or v.a[0] not in (AUX, V): raise Unk(ctx + ': %s is stored' % show(v)[:60])
                    if v.a[0] is V: raise Bad(ctx + ': takes elements from the array it writes', e)
                    st.append((band(F.gate(e), g0), v.a[1], e))
                    kp = kpos(F.lv(e) if F.lv(e).op != 'at' and F.lv(e).op != 'fld' else F.S(e.ptr))
                    if kp is None or kp[0] not in mine or kp[1] != 0: raise Unk(ctx + ': where an element goes')
                    cur.setdefault('k', kp[0])
                    if cur['k'] is not kp[0]: raise Unk(ctx + ': where an element goes')
            K = cur['k']
            # the variables: those the element positions use
            roles = {}
            for g, ix, e in st:
                if ix not in mine:
                    c, d = lin_of(ix); q = list(d)[0] if len(d) == 1 else None
                    if q in mine and d[q] == 1 and all(isc(add(v, q, -1)) and add(v, q, -1).a[0] == -1 for _, v in ite_cases(mine[q][2])) and all(n_ > 0 for _, n_ in kadv(K, mine[K][2])): raise Bad('%s: elements are taken from the end of their half backwards' % ctx, e)
                    raise Unk(ctx + ': element taken')
                ini = mine[ix][1]
                if ini is here['i']: roles[ix] = 'i'
                elif ini is here['j']: roles[ix] = 'j'
                else: raise (Unk if opaque(ini) else Bad)('%s: takes elements from %s on' % (ctx, show(ini)[:60]), e)
            byr = {v: q for q, v in roles.items()}
            if len(byr) != len(roles): raise Unk(ctx + ': elements taken')
            kini = mine[K][1]
            if first:
                want = mk('adx', V, ((LO, 8),))
                if kini is not want and kini is not LO: raise (Unk if opaque(kini) else Bad)('%s: the result starts at %s' % (ctx, show(kini)[:60]), es[0])
            elif kini is not here['k']: raise (Unk if kini.op == 'ite' else Bad)('%s: the result goes on at %s' % (ctx, show(kini)[:60]), es[0])
            stop = bor(*[F.v.SB(x[2]) for x in t.exits]); run = bnot(stop)
            inr = TRUE
            for q, ro in roles.items():
                end = D if ro == 'i' else HI
                inr = band(inr, bnot(cmp_lt0(add(end, q, -1))))          # q <= end, kept below
            counted = False
            if len(roles) == 2 and any(occurs(a, K) for a in atoms_of(run)):
                # the loop counts the places of the result: as many are filled as elements are taken
                if mine[K][1] is not LO: raise Unk(ctx + ': end of the loop')
                kr = bnot(cmp_lt0(add(HI, K, -1)))
                if not same(run, bnot(cmp_lt0(add(HI, add(K, const(1)), -1))), kr): raise Unk(ctx + ': end of the loop')
                i, j = byr['i'], byr['j']
                inr = band(inr, bor(bnot(cmp_eq0(add(i, D, -1))), bnot(cmp_eq0(add(j, HI, -1)))))
                counted = True
            # exactly one element per turn
            tot = FALSE
            for n_, (g, ix, e) in enumerate(st):
                for g2, ix2, e2 in st[n_ + 1:]:
                    if satis(band(g, g2, run, inr)): raise Bad('%s: two elements in one turn' % ctx, e2)
                tot = bor(tot, g)
            if not entails(band(run, inr), tot): 
                if any(opaque(a) and not any(occurs(a, q) for q in mine) for a in atoms_of(tot)): raise Unk(ctx + ': turn')
                raise Bad('%s: a turn may place no element' % ctx, es[0])
            for g, n_ in kadv(K, mine[K][2]):
                if n_ != 1 and satis(band(g, run, inr)): raise Bad('%s: the result advances by %d' % (ctx, n_), es[0])
            whole = {}
            for q, ro in roles.items():
                taken = bor(*[g for g, ix, e in st if ix is q])
                for g, n_ in kadv(q, mine[q][2]):
                    g = band(g, run, inr)
                    if n_ == 1:
                        if not entails(g, taken) and satis(band(g, bnot(taken))): raise Bad('%s: an element is skipped' % ctx, es[0])
                    elif n_ == 0:
                        if satis(band(g, taken)): raise Bad('%s: an element is taken again' % ctx, es[0])
                    else: raise Bad('%s: the position advances by %d' % (ctx, n_), es[0])
                end = D if ro == 'i' else HI
                left = band(bnot(cmp_eq0(add(q, end, -1))), inr)
                # an element is taken only if there is one
                for g, ix, e in st:
                    if ix is q and not entails(band(g, run, inr), left):
                        z = band(g, run, inr, bnot(left))
                        if satis(z): 
                            # single loop over the result: position counts tell
                            raise Bad('%s: an element past the end of its half is taken' % ctx, e)
                whole[ro] = entails(band(stop, inr), bnot(left))
            # variables of the other half stay
            # order
            if len(roles) == 2:
                i, j = byr['i'], byr['j']
                xi, xj = at(AUX, i), at(AUX, j)
                cs = [a for g, _, _ in st for a in atoms_of(g) if a.op in ('pcall', 'call', 'better')]
                def sense(a):
                    z = [y for y in a.a if isinstance(y, T)] if a.op != 'pcall' else [y for y in a.a if isinstance(y, T)]
                    z = [y for y in z if y in (xi, xj)]
                    if z == [xi, xj]: return 1
                    if z == [xj, xi]: return -1
                    return 0
                both = band(bnot(cmp_eq0(add(i, D, -1))), bnot(cmp_eq0(add(j, HI, -1))), inr, run)
                ti, tj = bor(*[g for g, ix, e in st if ix is i]), bor(*[g for g, ix, e in st if ix is j])
                if not cs: raise Bad('%s: the elements are not compared' % ctx, es[0])
                ok = False
                for a in set(cs):
                    s = sense(a)
                    if s == 0:
                        z = [y for y in a.a if isinstance(y, T) and y.op == 'at' and y.a[0] in (AUX, V)]
                        if len(z) == 2 and not any(opaque(y.a[1]) and y.a[1] not in mine for y in z): raise Bad('%s: other elements are compared (%s)' % (ctx, ', '.join(show(y)[:40] for y in z)), es[0])
                        raise Unk(ctx + ': comparison')
                    # i is taken when it comes before j, j is taken when it comes before i (equal ones: either)
                    if s == 1:
                        if satis(band(both, atom(a), tj)): raise Bad('%s: the element that comes later is taken first' % ctx, es[0])
                        if satis(band(both, bnot(atom(a)), ti)): raise Bad('%s: the element that comes later is taken first' % ctx, es[0])
                        ok = True
                    else:
                        if satis(band(both, atom(a), ti)): raise Bad('%s: the element that comes later is taken first' % ctx, es[0])
                        if satis(band(both, bnot(atom(a)), tj)): raise Bad('%s: the element that comes later is taken first' % ctx, es[0])
                        ok = True
                if counted: whole['i'] = whole['j'] = True
                elif not entails(band(stop, inr), bor(cmp_eq0(add(i, D, -1)), cmp_eq0(add(j, HI, -1)))): raise Bad('%s: stops although both halves have elements left' % ctx, es[0])
            else:
                ro = list(roles.values())[0]
                if first: raise Unk(ctx + ': no merging')
                if not whole[ro]: raise Bad('%s: elements are left behind' % ctx, es[0])
            for q, ro in roles.items(): here[ro] = q
            here['k'] = K
            if len(roles) == 2: done = {'i': whole['i'], 'j': whole['j']}
            else: done[list(roles.values())[0]] = True
            first = False
        for ro in 'ij':
            if not done.get(ro): raise Bad('merging: the rest of the %s half is not taken over' % ('first' if ro == 'i' else 'second'), None)
    def bulk_(F): return [e for e in F.events if e.kind in ('copy', 'set') or e.kind == 'call' and re.search(r'mem(cpy|move)|std::(copy|move|merge)', e.name or '')]
    r.ob(TG, 'the halves are sorted, then merged: each element once, none before one that precedes it', aux)

# ---------------------------------------------------------------- C26 -------
@rule('C26')
def disjoint(r):
    TG = 'C26'
    PAR, SZ = 'Node.1', 'Node.3'
    def arrow(t):
        """the pointer object a dereference goes through"""
        return t.a[1] if t.op in ('call', 'pcall', 'rcall') and len(t.a) > 1 and 'operator->' in str(t.a[0]) else None
    def calls(F, rx): return [e for e in F.events if e.kind == 'call' and e.gate is not FALSE and re.search(rx, e.name or '')]
    def obj(F, p): return F.S(p)
    def node(F, t):
        """pointer object whose node a term is a field of"""
        while isinstance(t, T) and t.op in ('adr', 'fld') : 
            t = t.a[0]
        return arrow(t) if isinstance(t, T) else None
    def made():
        for nm in ('k_uf_node', 'k_uf_nodem'):
            F = k(r, nm); me = F.A(0)
            ss = {}
            for e in F.stores():
                l = F.lv(e)
                if l.op == 'fld' and l.a[0] is me: ss.setdefault(l.a[1], []).append(e)
            sz = [x for n, x in ss.items() if n.endswith('_sz') or n == SZ]
            if len(sz) != 1: raise (Unk('size of a new set') if len(ss) < 2 or len(sz) > 1 else Bad('a new set has no size'))
            val(F.val(sz[0][-1]), const(1), 'size of a new set', sz[0][-1])
            vs = [x for n, x in ss.items() if n.endswith('_value') or n == 'Node.2']
            if len(vs) != 1: raise Unk('value of a new element')
            val(F.val(vs[0][-1]), fld(F.A(1), 'f0'), 'value of a new element', vs[0][-1])
        F = k(r, 'k_uf_make')
        m = F.one(calls(F, r'make_shared|allocate_shared'), 'making a node')
        val(F.a(m, len(m.args) - 1), fld(F.A(1), 'f0'), 'makeSet: value', m) if not isinstance(m.args[-1], type(None)) else None
        p = F.one(calls(F, r'list::(push_back|push_front|emplace_back)'), 'keeping the node')
        chk(F.gate(p), TRUE, 'makeSet: keeping the node', p)
        chk(F.gate(m), TRUE, 'makeSet: making the node', m)
    r.ob(TG, 'a new element is a set of its own, of size 1, and is kept', made)
    def find():
        fs = r.fns('cont', r'^UnionFind<long>::setFor\('); F = fs[0]
        res = F.g.args[0]; v = F.A(1)
        up = calls(F, r'setFor$')
        ctx = 'finding the set'
        if any(F.under(e) for e in F.events if e.kind in ('call', 'store')) or F.loops(): raise Unk(ctx + ': iterative')
        if not up:
            raise Bad(ctx + ': never goes beyond the parent') if not F.loops() else Unk(ctx)
        e = F.one(up, 'going up')
        # argument: the parent of v
        lk = calls(F, r'weak_ptr::lock')
        if len(lk) != 1: raise (Unk(ctx + ': parent'))
        lk = lk[0]
        if not (isinstance(F.S(lk.args[0]), T) and node(F, F.S(lk.args[0])) is v): raise (Unk(ctx + ': parent'))
        a = e.args[-1]
        if lk.sret is None or psplit(lk.sret)[0] is not psplit(a)[0]: raise (Unk(ctx + ': argument'))
        g = F.gate(e)
        # the condition: v has a parent
        test = [x for x in atoms_of(g)]
        if len(test) != 1: raise (Bad(ctx + ': goes up even from a root', e) if g is TRUE else Unk(ctx + ': test'))
        t = test[0]; z = t.a[0]
        if not (t.op in ('eq0', 'lt0')): raise Unk(ctx + ': test')
        subs = [y for y in subterms(z) if y.op in ('call', 'rcall', 'pcall') and ('use_count' in str(y.a[0]) or 'expired' in str(y.a[0]))]
        if len(subs) != 1 or node(F, subs[0].a[1]) is not v: raise Unk(ctx + ': test')
        u = subs[0]
        if 'use_count' in str(u.a[0]):
            for n in (0, 1, 2, 5):
                b = evalb(g, {u: n})
                if b is None: raise Unk(ctx + ': test')
                if b != (n > 0): raise Bad('%s: goes up %s' % (ctx, 'from a root' if b else 'only if the parent has more than %d owners' % n), e)
        else: raise Unk(ctx + ': test')
        # what is returned
        cp = [x for x in calls(F, r'shared_ptr::shared_ptr') if F.S(x.args[0]) is F.S(res)]
        esr = e.sret is not None and psplit(e.sret)[0] is psplit(res)[0]
        for x in cp:
            src = F.S(x.args[1])
            if src is v or src is F.S(F.g.args[2]):
                if satis(band(F.gate(x), g)): raise Bad(ctx + ': gives the element itself although it has a parent', x)
            elif lk.sret is not None and psplit(x.args[1])[0] is psplit(lk.sret)[0]: raise Bad(ctx + ': gives the parent, not the root', x)
            elif e.sret is not None and psplit(x.args[1])[0] is psplit(e.sret)[0]: esr = True
            else: raise Unk(ctx + ': result')
        if not esr: raise Unk(ctx + ': result')
        if not entails(bnot(g), bor(*[F.gate(x) for x in cp if F.S(x.args[1]) is v or F.S(x.args[1]) is F.S(F.g.args[2])])): raise Unk(ctx + ': result')
        # compression: the parent becomes the root, nothing else
        for x in F.stores():
            l = F.lv(x)
            if node(F, l) is None: 
                if psplit(x.ptr)[0] is psplit(res)[0]: continue
                raise Unk(ctx + ': writes %s' % show(l)[:60])
            if node(F, l) is not v:
                if e.sret is not None and psplit(node(F, l))[0] is psplit(e.sret)[0] or psplit(node(F, l))[0] is psplit(res)[0]: raise Bad(ctx + ': changes the representative', x)
                raise Unk(ctx + ': writes %s' % show(l)[:60])
            if not (F.S(x.ptr).op == 'adr' and F.S(x.ptr).a[1] == PAR): raise Bad('%s: changes %s' % (ctx, show(l)[:60]), x)
            w = F.val(x)
            if w is F.S(e.ret) if e.ret is not None else False: continue
            if w.op in ('call', 'rcall') and 'setFor' in str(w.a[0]) or isinstance(e.ret, T) and w is e.ret: continue
            if w is v or w is fld(v, 'f0') or w.op == 'ld' and psplit(w.a[0])[0] is psplit(F.g.args[2])[0]: raise Bad(ctx + ': the element becomes its own parent', x)
            if w is NULL: raise Bad(ctx + ': the element is cut off from its set', x)
            raise Unk(ctx + ': new parent %s' % show(w)[:60])
        for x in calls(F, r'weak_ptr::reset|weak_ptr::swap'): raise Bad(ctx + ': the element is cut off from its set', x) if 'reset' in x.name else Unk(ctx)
    r.ob(TG, 'the representative of an element is that of its parent, or itself if it has none', find)
    def merge():
        F = k(r, 'k_uf_merge'); res = F.g.args[0]; ctx = 'merging sets'
        if F.loops(): raise Unk(ctx + ': loop')
        fs = calls(F, r'setFor$')
        if len(fs) != 2: raise (Bad(ctx + ': the representative of one of the sets is not looked up', fs[0] if fs else None) if len(fs) < 2 and fs else Unk(ctx))
        args_ = []
        for e in fs:
            src = None
            for c in calls(F, r'shared_ptr::shared_ptr'):
                if psplit(c.args[0])[0] is psplit(e.args[-1])[0]: src = F.S(c.args[1])
            args_.append(src)
        A = [F.A(1), F.A(2)]
        if set(args_) != set(A):
            if set(args_) < set(A) : raise Bad(ctx + ': the same set is looked up twice', fs[0])
            raise Unk(ctx + ': sets looked up')
        R_ = [psplit(e.sret)[0] if e.sret is not None else None for e in fs]
        if None in R_: raise Unk(ctx)
        def rep(t):
            """which representative a pointer object is"""
            if t is None: return None
            b = psplit(t)[0] if isinstance(t, T) else None
            return R_.index(b) if b in R_ else None
        def repof(t):
            x = node(F, t)
            return rep(x)
        def val_rep(w):
            for i, e in enumerate(fs):
                if isinstance(e.ret, T) and w is F.S(e.ret): return i
            if w.op in ('call', 'rcall', 'pcall') and w.a[0] and 'get' in str(w.a[0]): return rep(w.a[1])
            for i, b in enumerate(R_):
                if w.op == 'fld' and w.a[0] is b: return i
                if w.op == 'ld' and psplit(w.a[0])[0] is b: return i
            return None
        # same set?
        eqs = set()
        for e in F.events:
            for a in atoms_of(F.gate(e)):
                if a.op == 'eq0' and sum(1 for y in subterms(a) if y.op in ('call', 'rcall', 'pcall') and str(y.a[0]).endswith('::get')) == 2: eqs.add(a)
        if len(eqs) > 1: raise Unk(ctx + ': test')
        par, size = [], []
        for e in F.stores():
            p = F.S(e.ptr)
            if p.op == 'adr' and repof(p) is not None:
                if p.a[1] == PAR: par.append(e)
                elif p.a[1] == SZ: size.append(e)
                else: raise Unk(ctx + ': writes %s' % show(p)[:60])
            elif psplit(e.ptr)[0] is psplit(res)[0]: pass
            elif p.op == 'adr' and node(F, p) in A: raise Bad('%s: writes to an element, which need not be the representative' % ctx, e)
            else: raise Unk(ctx + ': writes %s' % show(p)[:60])
        if not par: raise (Unk(ctx + ': linking') if calls(F, r'weak_ptr::(operator=|swap)') else Bad(ctx + ': the sets are not linked'))
        if not eqs: raise (Unk(ctx + ': test') if any(a.op not in ('lt0',) for e in par for a in atoms_of(F.gate(e))) else Bad(ctx + ': a set is linked to itself when both elements are in it', par[0]))
        eq = eqs.pop()
        gs_ = [y.a[1] for y in subterms(eq) if y.op in ('call', 'rcall', 'pcall') and str(y.a[0]).endswith('::get')]
        if set(gs_) == set(A): raise Bad(ctx + ': compares the elements, not their representatives: a set may be linked to itself', par[0])
        if {rep(y) for y in gs_} != {0, 1}: raise Unk(ctx + ': test')
        E = atom(eq)
        tot = FALSE
        for e in par:
            x, y = repof(F.S(e.ptr)), val_rep(F.val(e))
            if x is None or y is None: raise Unk(ctx + ': linking')
            if x == y: raise Bad(ctx + ': a set is linked to itself', e)
            if satis(band(F.gate(e), E)): raise Bad(ctx + ': a set is linked to itself when both elements are in it', e)
            if satis(band(tot, F.gate(e))): raise Bad(ctx + ': each set is linked to the other', e)
            tot = bor(tot, F.gate(e))
        if not entails(bnot(E), tot): raise Bad(ctx + ': the sets may stay apart', par[0])
        for e in par:
            g = F.gate(e); x, y = repof(F.S(e.ptr)), val_rep(F.val(e))
            ss = [z for z in size if satis(band(F.gate(z), g))]
            up = [z for z in ss if repof(F.S(z.ptr)) == y]
            if not up: raise (Bad(ctx + ': the size of the merged set is not updated', e))
            for z in up:
                if not entails(g, F.gate(z)): raise Bad(ctx + ': the size of the merged set is not updated', z)
                c, d = lin_of(F.val(z))
                want = {}
                for t in d: want[repof(t)] = d[t]
                if c != 0 or set(want) != {0, 1} or set(want.values()) != {1}:
                    if None in want: raise Unk(ctx + ': size')
                    raise Bad('%s: the size of the merged set is %s' % (ctx, show(F.val(z))[:80]), z)
            # what is given back
            rs = [c for c in calls(F, r'shared_ptr::shared_ptr') if psplit(c.args[0])[0] is psplit(res)[0]]
            for c in rs:
                if not satis(band(F.gate(c), g)): continue
                z = rep(F.S(c.args[1]))
                if z is None:
                    if F.S(c.args[1]) in A: raise Bad(ctx + ': gives an element, which need not be the representative', c)
                    raise Unk(ctx + ': result')
                if z != y: raise Bad(ctx + ': gives the set that was linked, not the representative of the merged one', c)
    r.ob(TG, 'merging links one representative to the other and gives the one that stays', merge)
