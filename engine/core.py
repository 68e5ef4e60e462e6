"""Gated value graph over the resolved program.

Every function dumped by irx is turned, in one pass over its reducible control
flow graph, into hash-consed terms (values), ROBDD gates over branch atoms
(when does this happen, relative to the innermost loop iteration) and a memory
def-chain that loads are resolved against.  Loops are widened: loop phis and
everything the loop may write are opaque at the header.  Nothing is executed
and no path is enumerated or solved.
"""
import re, sys
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ terms ---
class T:
    __slots__ = ('op', 'a', 'id', 'info')
    def __repr__(self): return show(self)

_tab = {}
def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(_tab); t.info = None
        _tab[k] = t
    return t

def const(n): return mk('c', n)
NULL = mk('c', 0)
UNDEF = mk('undef')
def isc(t): return t.op == 'c'

FIELDS = {}      # (struct, index) -> source name, for messages
FOFF = {}        # (struct, index) -> byte offset
def show(t, d=0):
    if isinstance(t, Bdd): return bshow(t)
    if not isinstance(t, T): return str(t)
    if d > 9: return '...'
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == 'c': return str(a[0])
    if o == 'arg': return a[1] or 'arg%d' % a[0]
    if o == 'alloca': return '&' + (a[1] or 'v') + '.%d' % a[0]
    if o == 'lin':
        r = [(('' if c == 1 else '-' if c == -1 else '%d*' % c) + s(x)) for x, c in a[1]]
        if a[0]: r.append(str(a[0]))
        return '(' + '+'.join(r) + ')'
    if o == 'ptr':
        r = s(a[0])
        if a[3]: r += '.' + '.'.join(FIELDS.get(p) or p[0].split('.')[-1] + '#%d' % p[1] for p in a[3])
        elif a[1]: r += '+%d' % a[1]
        for x, c in a[2]: r += '[%s*%d]' % (s(x), c)
        return r
    if o == 'ld': return '*(%s)@%s' % (s(a[0]), a[1])
    if o == 'phi': return 'phi%d.%d' % (a[0], a[1])
    if o == 'ite': return 'ite{' + '; '.join('%s: %s' % (bshow(g), s(v)) for g, v in a) + '}'
    if o == 'elem': return 'E%s' % a[1]
    if o == 'call': return '%s#%d' % (a[0], a[1])
    if o == 'pcall' or o == 'rcall': return '%s(%s)' % (a[0], ','.join(s(x) for x in a[1:]))
    return o + '(' + ','.join(s(x) for x in a) + ')'

# ------------------------------------------------------------------ bdds ----
class Bdd:
    __slots__ = ('v', 'lo', 'hi', 'id')
    def __repr__(self): return bshow(self)
_bt = {}
def _mkb(v, lo, hi):
    if lo is hi: return lo
    k = (v, lo.id, hi.id)
    b = _bt.get(k)
    if b is None:
        b = Bdd(); b.v = v; b.lo = lo; b.hi = hi; b.id = len(_bt) + 2; _bt[k] = b
    return b
FALSE = Bdd(); FALSE.v = 1 << 60; FALSE.lo = FALSE.hi = None; FALSE.id = 0
TRUE = Bdd(); TRUE.v = 1 << 60; TRUE.lo = TRUE.hi = None; TRUE.id = 1
_atoms = []; _aidx = {}
def atom(t):
    i = _aidx.get(t)
    if i is None:
        i = len(_atoms); _aidx[t] = i; _atoms.append(t)
    return _mkb(i, FALSE, TRUE)
_im = {}
def bite(f, g, h):
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    k = (f.id, g.id, h.id)
    r = _im.get(k)
    if r is None:
        v = min(f.v, g.v, h.v)
        c = lambda x, hi: (x.hi if hi else x.lo) if x.v == v else x
        r = _mkb(v, bite(c(f, 0), c(g, 0), c(h, 0)), bite(c(f, 1), c(g, 1), c(h, 1)))
        _im[k] = r
    return r
def band(*fs):
    r = TRUE
    for f in fs: r = bite(r, f, FALSE)
    return r
def bor(*fs):
    r = FALSE
    for f in fs: r = bite(r, TRUE, f)
    return r
def bnot(f): return bite(f, FALSE, TRUE)
def bxor(f, g): return bite(f, bnot(g), g)
def implies(f, g): return bite(f, g, TRUE) is TRUE
def bimp(f, g): return bite(f, g, TRUE)
_cm = {}
def constrain(f, c):
    """f restricted to the care set c (Coudert-Madre restrict)"""
    if c is TRUE or c is FALSE or f is TRUE or f is FALSE: return f
    k = (f.id, c.id); r = _cm.get(k)
    if r is not None: return r
    if f.v < c.v: r = _mkb(f.v, constrain(f.lo, c), constrain(f.hi, c))
    elif f.v > c.v: r = constrain(f, bor(c.lo, c.hi))
    elif c.lo is FALSE: r = constrain(f.hi, c.hi)
    elif c.hi is FALSE: r = constrain(f.lo, c.lo)
    else: r = _mkb(f.v, constrain(f.lo, c.lo), constrain(f.hi, c.hi))
    _cm[k] = r
    return r
def support(f, acc=None, seen=None):
    if acc is None: acc = set(); seen = set()
    if f is TRUE or f is FALSE or f.id in seen: return acc
    seen.add(f.id); acc.add(f.v)
    support(f.lo, acc, seen); support(f.hi, acc, seen)
    return acc
def atoms_of(f): return [_atoms[i] for i in sorted(support(f))]
def bexists(f, pred, memo=None):
    """existentially removes the atoms that satisfy pred"""
    if memo is None: memo = {}
    if f is TRUE or f is FALSE: return f
    r = memo.get(f.id)
    if r is None:
        lo, hi = bexists(f.lo, pred, memo), bexists(f.hi, pred, memo)
        if pred(_atoms[f.v]): r = bor(lo, hi)
        else: r = bite(atom(_atoms[f.v]), hi, lo)
        memo[f.id] = r
    return r
def bsubst(f, fn, memo=None):
    """replaces each atom by fn(atom) (a Bdd or None to keep it)"""
    if memo is None: memo = {}
    if f is TRUE or f is FALSE: return f
    r = memo.get(f.id)
    if r is None:
        a = _atoms[f.v]; n = fn(a)
        if n is None: n = atom(a)
        r = bite(n, bsubst(f.hi, fn, memo), bsubst(f.lo, fn, memo))
        memo[f.id] = r
    return r
def bshow(f):
    if f is TRUE: return 'T'
    if f is FALSE: return 'F'
    out = []
    def rec(x, acc):
        if len(out) > 6: return
        if x is TRUE: out.append('&'.join(acc) or 'T'); return
        if x is FALSE: return
        nm = show(_atoms[x.v], 6)
        rec(x.hi, acc + [nm]); rec(x.lo, acc + ['!' + nm])
    rec(f, [])
    return '|'.join(out[:5]) + ('|...' if len(out) > 5 else '')

# -------------------------------------------------------- value builders ----
def lin_of(t):
    """(const, {term: coeff})"""
    if t.op == 'c': return t.a[0], {}
    if t.op == 'lin': return t.a[0], dict(t.a[1])
    return 0, {t: 1}
def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d: return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
def add(a, b, s=1):
    if a.op == 'ptr' and b.op not in ('ptr',) and s == 1: return padd(a, b, 1)
    ca, da = lin_of(a); cb, db = lin_of(b)
    d = dict(da)
    for k, v in db.items(): d[k] = d.get(k, 0) + s * v
    return mklin(ca + s * cb, d)
def mulc(a, n):
    c, d = lin_of(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})
def mul(a, b):
    if isc(a): return mulc(b, a.a[0])
    if isc(b): return mulc(a, b.a[0])
    if a.op == 'b2i': return ite([(a.a[0], b), (bnot(a.a[0]), const(0))])
    if b.op == 'b2i': return mul(b, a)
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('mul', x, y)

# bits that may be set (python int mask or None = unknown) for widths <= 64
def maybits(t, w=64):
    full = (1 << w) - 1
    if t.op == 'c': return t.a[0] & full
    if t.op == 'b2i': return 1
    if t.op == 'and':
        m = full
        for x in t.a: m &= maybits(x, w)
        return m
    if t.op == 'or':
        m = 0
        for x in t.a: m |= maybits(x, w)
        return m
    if t.op == 'shl' and isc(t.a[1]): return (maybits(t.a[0], w) << t.a[1].a[0]) & full
    if t.op == 'lshr' and isc(t.a[1]): return maybits(t.a[0], w) >> t.a[1].a[0]
    if t.op == 'lin' and t.a[0] == 0 and len(t.a[1]) == 1:
        x, c = t.a[1][0]
        if c > 0 and c & (c - 1) == 0: return (maybits(x, w) * c) & full
    if t.op in ('ctpop', 'ctlz', 'cttz', 'ffs'): return 0x7f
    if t.op == 'zx': return maybits(t.a[0], t.a[1]) & ((1 << t.a[1]) - 1)
    return full

def flat(op, ts):
    for t in ts:
        if t.op == op: yield from flat(op, t.a)
        else: yield t
def bit_and(w, *ts):
    full = (1 << w) - 1
    m = full; rest = []
    for t in flat('and', ts):
        if isc(t): m &= t.a[0] & full
        elif t not in rest: rest.append(t)
    bs = [t for t in rest if t.op == 'b2i']
    if bs and len(bs) == len(rest) and m & 1: return mk_b2i(band(*[t.a[0] for t in bs]))
    if m == 0: return const(0)
    if not rest: return const(sgn(m, w))
    # complementary operands
    if len(rest) == 1 and rest[0].op == 'or' and m != full:
        return bit_or(w, *[bit_and(w, x, const(m)) for x in rest[0].a])
    mm = m
    for t in rest: mm &= maybits(t, w)
    if mm == 0: return const(0)
    if m != full and all(maybits(t, w) & ~m & full == 0 for t in rest): m = full
    if m != full: rest.append(const(m))
    if len(rest) == 1: return rest[0]
    return mk('and', *sorted(rest, key=lambda t: t.id))
def bit_or(w, *ts):
    full = (1 << w) - 1
    m = 0; rest = []
    for t in flat('or', ts):
        if isc(t): m |= t.a[0] & full
        elif t not in rest: rest.append(t)
    bs = [t for t in rest if t.op == 'b2i']
    if bs and len(bs) == len(rest) and m & ~1 == 0:
        return mk_b2i(bor(atomc(m & 1), *[t.a[0] for t in bs]))
    if m == full: return const(-1)
    if m: rest.append(const(sgn(m, w)))
    if not rest: return const(0)
    if len(rest) == 1: return rest[0]
    return mk('or', *sorted(rest, key=lambda t: t.id))
def atomc(b): return TRUE if b else FALSE
def bit_xor(w, a, b):
    if isc(a): a, b = b, a
    if isc(a): return const(a.a[0] ^ b.a[0])
    if isc(b) and b.a[0] == 0: return a
    if isc(b) and (b.a[0] & ((1 << w) - 1)) == (1 << w) - 1: return bit_not(a)
    if a.op == 'b2i' and b.op == 'b2i': return mk_b2i(bxor(a.a[0], b.a[0]))
    if a.op == 'b2i' and isc(b): return mk_b2i(bxor(a.a[0], atomc(b.a[0] & 1)))
    if a is b: return const(0)
    ts = {}
    for t in flat('xor', (a, b)): ts[t] = ts.get(t, 0) + 1
    ts = [t for t, n in ts.items() if n & 1]
    if not ts: return const(0)
    if len(ts) == 1: return ts[0]
    return mk('xor', *sorted(ts, key=lambda t: t.id))
def bit_not(a):
    if a.op == 'not': return a.a[0]
    if isc(a): return const(~a.a[0])
    return mk('not', a)
def sgn(m, w):
    return m - (1 << w) if m >> (w - 1) & 1 else m
def shl(a, b, w):
    if isc(b) and b.a[0] == 0: return a
    if isc(a) and isc(b): return const(sgn((a.a[0] << b.a[0]) & ((1 << w) - 1), w))
    if isc(b):
        if b.a[0] >= 24: return mk('shl', a, b)       # bit-field packing, not arithmetic
        return mulc(a, 1 << b.a[0])
    return mk('shl', a, b)
def lshr(a, b, w):
    if isc(b):
        n = b.a[0]
        if n == 0: return a
        if isc(a): return const((a.a[0] & ((1 << w) - 1)) >> n)
        if a.op == 'or':
            r = [lshr(x, b, w) for x in a.a]
            if all(not (x.op == 'lshr') for x in r): return bit_or(w, *r)
            return bit_or(w, *r)
        if a.op == 'and':
            ms = [x for x in a.a if isc(x)]
            if ms:
                m = (ms[0].a[0] & ((1 << w) - 1)) >> n
                if m == 0: return const(0)
                rest = bit_and(w, *[x for x in a.a if not isc(x)])
                return bit_and(w, lshr(rest, b, w), const(m))
        if a.op == 'shl' and isc(a.a[1]) and a.a[1].a[0] == n:
            if maybits(a.a[0], w) >> (w - n) == 0: return a.a[0]
            return bit_and(w, a.a[0], const((1 << (w - n)) - 1))
        if maybits(a, w) >> n == 0: return const(0)
        if n == w - 1 and w == 32: return mk_b2i(atom(mk('bit', a, n)))
    return mk('lshr', a, b)
def mk_b2i(f):
    if f is TRUE: return const(1)
    if f is FALSE: return const(0)
    return mk('b2i', f)

def ite(es, care=None):
    """es: [(gate,term)]"""
    m = {}
    for g, v in es:
        if g is FALSE: continue
        if v.op == 'ite':
            for g2, v2 in v.a:
                x = band(g, g2)
                if x is not FALSE: m[v2] = bor(m.get(v2, FALSE), x)
            # uncovered part of v: keep as is
            cov = bor(*[g2 for g2, _ in v.a])
            rest = band(g, bnot(cov))
            # gates of an ite are relative: outside them the value is irrelevant
        else: m[v] = bor(m.get(v, FALSE), g)
    m = {v: g for v, g in m.items() if v is not UNDEF} or m
    if len(m) == 1: return next(iter(m))
    if not m: return UNDEF
    if all(v.op in ('b2i',) or (isc(v) and v.a[0] in (0, 1)) for v in m):
        tot = bor(*m.values())
        f = bor(*[band(g, v.a[0] if v.op == 'b2i' else atomc(v.a[0])) for v, g in m.items()])
        if any(v.op == 'b2i' for v in m) or True:
            return mk_b2i(constrain(f, tot))
    if len(m) == 2:
        # x == y ? x : y  is y
        (v, g), (w, h) = m.items()
        if v.op not in ('ite', 'ptr', 'adr') and w.op not in ('ite', 'ptr', 'adr') and (g.v >= 0 and g is not TRUE) and any(a.op in ('eq0', 'lt0') for a in atoms_of(g)):
            e = cmp_eq(v, w)
            if e is not TRUE and e is not FALSE:
                if band(g, bnot(e)) is FALSE: return w
                if band(h, bnot(e)) is FALSE: return v
    tot = bor(*m.values())
    es = sorted(((constrain(g, tot), v) for v, g in m.items()), key=lambda x: x[1].id)
    return mk('ite', *es)

def ite_cases(t):
    if t.op == 'ite': return list(t.a)
    return [(TRUE, t)]
def lift(f, *ts):
    """applies f through ite"""
    for i, t in enumerate(ts):
        if isinstance(t, T) and t.op == 'ite' and len(t.a) <= 6:
            return ite([(g, lift(f, *(ts[:i] + (v,) + ts[i + 1:]))) for g, v in t.a])
    return f(*ts)

# pointers
def mkptr(root, off, idx, path):
    if root.op == 'ptr': raise Exception
    if off == 0 and not idx and not path: return root
    return mk('ptr', root, off, idx, path)
def psplit(p):
    if p.op == 'ptr': return p.a
    if p.op == 'lin':
        # pointer arithmetic done on integers: pick the pointer-like root
        return (p, 0, (), ())
    return (p, 0, (), ())
def padd(p, ix, scale, path=None):
    r, off, idx, pt = psplit(p)
    c, d = lin_of(ix)
    off += c * scale
    dd = dict(idx)
    for k, v in d.items(): dd[k] = dd.get(k, 0) + v * scale
    idx = tuple(sorted(((k, v) for k, v in dd.items() if v), key=lambda kv: kv[0].id))
    return mkptr(r, off, idx, pt if path is None else path)
def pfield(p, sname, k, off):
    r, o, idx, pt = psplit(p)
    return mkptr(r, o + off, idx, pt + ((sname, k),))
def pstrip(p):
    """the address without the field path"""
    if p.op == 'ptr': return mkptr(p.a[0], p.a[1], p.a[2], ())
    return p

# comparisons ----------------------------------------------------------------
def nonneg(t):
    if t.op == 'c': return t.a[0] >= 0
    if t.op in ('b2i', 'and', 'ctpop', 'ctlz', 'cttz', 'zx', 'lshr'): return t.op != 'and' or any(nonneg(x) for x in t.a)
    if t.op == 'lin': return t.a[0] >= 0 and all(c > 0 and nonneg(x) for x, c in t.a[1])
    if t.op == 'ite': return all(nonneg(v) for _, v in t.a)
    return bool(t.info and t.info.get('unsigned'))

def cmp_eq(a, b):
    if a is b: return TRUE
    a, b = (pstrip(a) if a.op == 'ptr' else a), (pstrip(b) if b.op == 'ptr' else b)
    if a is b: return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and len(x.a) <= 6:
            tot = bor(*[g for g, _ in x.a])
            return constrain(bor(*[band(g, cmp_eq(v, y)) for g, v in x.a]), tot)
    if a.op == 'ptr' or b.op == 'ptr' or a.op == 'alloca' or b.op == 'alloca':
        ra, oa, ia, _ = psplit(a); rb, ob, ib, _ = psplit(b)
        if ra is rb:
            d = dict(ia)
            for k, v in ib: d[k] = d.get(k, 0) - v
            t = mklin(oa - ob, d)
            if isc(t): return atomc(t.a[0] == 0)
            return cmp_eq0(t)
        if isc(b) and b.a[0] == 0 or isc(a) and a.a[0] == 0: return FALSE if (a.op in ('ptr', 'alloca') or b.op in ('ptr', 'alloca')) else FALSE
        x, y = sorted((a, b), key=lambda t: t.id)
        return atom(mk('peq', x, y))
    return cmp_eq0(add(a, b, -1))
def cmp_eq0(t):
    c, d = lin_of(t)
    if not d: return atomc(c == 0)
    from math import gcd
    g = 0
    for v in d.values(): g = gcd(g, abs(v))
    if g > 1:
        if c % g: return FALSE
        c //= g; d = {k: v // g for k, v in d.items()}
    ks = sorted(d, key=lambda k: k.id)
    if d[ks[0]] < 0: c = -c; d = {k: -v for k, v in d.items()}
    t = mklin(c, d)
    if t.op == 'b2i': return bnot(t.a[0])
    if t.op == 'lin' and len(t.a[1]) == 1:
        x, k = t.a[1][0]
        if x.op == 'b2i' and k == 1:
            if c == -1: return x.a[0]
            return FALSE
    if t.op not in ('lin',) and nonneg(t): return cmp_lt0(add(t, const(1), -1))
    if t.op == 'mul': return bor(cmp_eq0(t.a[0]), cmp_eq0(t.a[1]))
    return atom(mk('eq0', t))
def cmp_lt0(t):
    if t.op == 'ite':
        tot = bor(*[g for g, _ in t.a])
        return constrain(bor(*[band(g, cmp_lt0(v)) for g, v in t.a]), tot)
    c, d = lin_of(t)
    if not d: return atomc(c < 0)
    from math import gcd
    g = 0
    for v in d.values(): g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g if c % g == 0 else (c // g)      # floor: sum*g + c < 0  <=>  sum + floor(c/g) < 0 or == when c%g
        # g*s + c0 < 0  <=>  s < -c0/g  <=>  s <= ceil(-c0/g)-1 ; with c=floor(c0/g): -c >= -c0/g
        # s < ceil(-c0/g) <=> s + floor(c0/g) < 0
    ks = sorted(d, key=lambda k: k.id)
    if len(d) == 1 and ks[0].op == 'ite' and abs(d[ks[0]]) == 1:
        tot = bor(*[g_ for g_, _ in ks[0].a])
        return constrain(bor(*[band(g_, cmp_lt0(add(mulc(v, d[ks[0]]), const(c)))) for g_, v in ks[0].a]), tot)
    if len(d) == 1 and ks[0].op == 'b2i' :
        x = ks[0]; k = d[x]
        return bite(x.a[0], atomc(k + c < 0), atomc(c < 0))
    if d[ks[0]] < 0:
        return bnot(cmp_lt0(mklin(-c - 1, {k: -v for k, v in d.items()})))
    # trivial: nonneg sum
    if all(v > 0 and nonneg(k) for k, v in d.items()) and c >= 0: return FALSE
    return atom(mk('lt0', mklin(c, d)))
def cmp_lt(a, b):
    if a.op == 'ptr' and b.op == 'ptr' and a.a[0] is b.a[0]:
        d = dict(a.a[2])
        for k, v in b.a[2]: d[k] = d.get(k, 0) - v
        return cmp_lt0(mklin(a.a[1] - b.a[1], d))
    if a.op == 'ite' or b.op == 'ite':
        for x, f in ((a, lambda v: cmp_lt(v, b)), (b, lambda v: cmp_lt(a, v))):
            if x.op == 'ite' and len(x.a) <= 6:
                tot = bor(*[g for g, _ in x.a])
                return constrain(bor(*[band(g, f(v)) for g, v in x.a]), tot)
    return cmp_lt0(add(a, b, -1))
def maybe_negative(t):
    """an int handed in by the caller may be negative"""
    if t.op == 'arg': return not (t.info and t.info.get('unsigned'))
    if t.op == 'ptr': return False
    if t.op in ('lin',): return any(maybe_negative(x) for x, _ in t.a[1])
    if t.op in ('ashr', 'sdiv', 'srem'): return maybe_negative(t.a[0])
    return False

# floating point sums --------------------------------------------------------
def flin_of(t):
    if t.op == 'fc': return t.a[0], {}
    if t.op == 'flin': return t.a[0], dict(t.a[1])
    return 0.0, {t: 1}
def mkflin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d: return mk('fc', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    return mk('flin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
def fadd(a, b, s=1):
    ca, da = flin_of(a); cb, db = flin_of(b)
    d = dict(da)
    for k, v in db.items(): d[k] = d.get(k, 0) + s * v
    return mkflin(ca + s * cb, d)
