"""Walking through a set of naturals: the position of the walk is a pair (word, rest of that word).

The value graph of a loop over a set is scalar: the visited element is a term over the loop's variables W (index of
the word) and C (what is left of the word).  The rules show that the first position is the first element, that the
next position is the following element, that the walk stops exactly after the last one and that no word outside the
set is read.  A term that is not one of the known spellings is refuted by a word for which it gives another value, or
else left undecided."""
from rules import *
from rules_cont import k
from rules_set import sat
import rules_set

M64 = (1 << 64) - 1
SAMPLES = [1, 2, 3, 0x8000000000000000, 0x100000000, 0x8000000100000000, 0x80000000, M64, 0xffffffff00000000, 0x10001, 0xdeadbeefcafe0000, 0x6]
def ev(t, env):
    """value of a term (64-bit words), None if it cannot be computed"""
    if t in env: return env[t] & M64
    o = t.op
    if o == 'c': return t.a[0] & M64 if isinstance(t.a[0], int) else None
    if o == 'lin':
        s = t.a[0]
        for x, c in t.a[1]:
            v = ev(x, env)
            if v is None: return None
            s += c * v
        return s & M64
    if o == 'ite':
        for g, v in t.a:
            b = evb(g, env)
            if b is None: return None
            if b: return ev(v, env)
        return None
    if o == 'b2i':
        b = evb(t.a[0], env)
        return None if b is None else int(b)
    if o == 'trunc':
        v = ev(t.a[1], env); w = t.a[0]
        if v is None or not isinstance(w, int): return None
        v &= (1 << w) - 1
        return None if v >> (w - 1) and w < 64 and env.get('signs') else v
    vs = [ev(x, env) for x in t.a if isinstance(x, T)]
    if not vs or any(v is None for v in vs): return None
    if o == 'and':
        r = M64
        for v in vs: r &= v
        return r
    if o == 'or':
        r = 0
        for v in vs: r |= v
        return r
    if o == 'xor':
        r = 0
        for v in vs: r ^= v
        return r
    if o == 'shl': return (vs[0] << vs[1]) & M64 if vs[1] < 64 else None
    if o == 'lshr': return vs[0] >> vs[1] if vs[1] < 64 else None
    if o == 'ashr': return ((vs[0] - (1 << 64) if vs[0] >> 63 else vs[0]) >> vs[1]) & M64 if vs[1] < 64 else None
    if o == 'cttz': return (vs[0] & -vs[0]).bit_length() - 1 if vs[0] else 64
    if o == 'ctlz': return 64 - vs[0].bit_length()
    if o == 'ctpop': return bin(vs[0]).count('1')
    return None
def evb(f, env):
    if f is TRUE: return True
    if f is FALSE: return False
    a = core._atoms[f.v]
    if a in env and a.op not in ('eq0', 'lt0'): return evb(f.hi if env[a] else f.lo, env)
    if a.op not in ('eq0', 'lt0'): return None
    v = ev(a.a[0], env)
    if v is None: return None
    b = v == 0 if a.op == 'eq0' else bool(v >> 63)
    return evb(f.hi if b else f.lo, env)
def like(t, ok, exact, C, what, w=None, env0=()):
    """t is exact(C) for every non-empty word C: in a known spelling; refuted by a sample; else undecided"""
    if ok(t): return
    for c in SAMPLES:
        e = dict(env0); e[C] = c
        v = ev(t, e)
        if v is None: break
        x = exact(c) & M64
        if v != x and (v ^ x) & 0xffffffff != 0 or v != x and w is None: raise Bad('%s: gives %d for the word %#x, should be %d' % (what, v, c, x))
    raise Unk('%s: %s' % (what, show(t)[:100]))
def lowbit(t, c): return t.op == 'and' and set(t.a) == {c, mulc(c, -1)}
def neg(t): return t.op == 'xor' and any(x is const(-1) or x is const(M64) for x in t.a) and [x for x in t.a if not isc(x)][0]
def cleared(t, c):
    """t is c without its lowest element"""
    if t.op == 'xor' and len(t.a) == 2 and c in t.a: return any(lowbit(x, c) for x in t.a)
    if t.op == 'and' and len(t.a) == 2 and c in t.a:
        o = [x for x in t.a if x is not c]
        if len(o) != 1: return False
        o = o[0]
        if o is add(c, const(-1)): return True
        n = neg(o)
        if n is not False and n is not None and isinstance(n, T) and (lowbit(n, c) or n.op == 'shl' and n.a[0] is const(1) and uncast(n.a[1]).op == 'cttz' and uncast(n.a[1]).a[0] is c): return True
        return False
    k_, d = lin_of(t)
    if k_ == 0 and d.get(c) == 1 and len(d) == 2:
        o = [x for x in d if x is not c][0]
        return d[o] == -1 and lowbit(o, c)
    return False
def uncast(t):
    while t.op in ('trunc', 'zext', 'sext') and isinstance(t.a[-1], T): t = t.a[-1]
    return t
def ctz(t, c): t = uncast(t) if t.op == 'trunc' and t.a[0] >= 8 else t; return t.op == 'cttz' and t.a[0] is c

import random
SMALL = [0, 1, 2, 3, 4, 7, 255, 256, 257, 600, 65535]
def leaves(f):
    """the variables and the yes/no questions a formula or a term depends on; None if there is something else"""
    vs, bs = set(), set()
    def term(t):
        if t.op in ('c',): return True
        if t.op in ('phi', 'fld', 'at', 'rest', 'arg', 'call', 'pcall', 'ld'): vs.add(t); return True
        if t.op in ('lin', 'ite', 'b2i', 'trunc', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'cttz', 'ctlz', 'ctpop'):
            for x in subs(t):
                if not (form(x) if isinstance(x, Bdd) else term(x)): return False
            return True
        return False
    def subs(t):
        out = []
        for z in t.a:
            if isinstance(z, (T, Bdd)): out.append(z)
            elif isinstance(z, tuple):
                for w in z:
                    if isinstance(w, (T, Bdd)): out.append(w)
                    elif isinstance(w, tuple): out.extend(v for v in w if isinstance(v, (T, Bdd)))
        return out
    def form(g):
        for a in atoms_of(g):
            if a.op in ('eq0', 'lt0'):
                if not term(a.a[0]): return False
            elif a.op in ('call', 'pcall'): bs.add(a)
            else: return False
        return True
    ok = form(f) if isinstance(f, Bdd) else term(f)
    return (vs, bs) if ok else None
def witness(f, words, ints, tries=3000):
    """values of the variables (words of bits, small numbers, answers of user code) that make f true"""
    lv = leaves(f)
    if lv is None: return None
    vs, bs = lv
    if any(v not in words and v not in ints and v.op not in ('call', 'pcall') for v in vs): return None
    rnd = random.Random(1); vs = sorted(vs, key=lambda t: t.id); bs = sorted(bs, key=lambda t: t.id)
    for _ in range(tries):
        env = {v: rnd.choice(SAMPLES + [0]) if v in words else rnd.choice(SMALL) for v in vs}
        for b in bs: env[b] = rnd.random() < .5
        env['signs'] = True
        if evb(f, env): return {k_: v for k_, v in env.items() if isinstance(k_, T)}
    return None
class Walk:
    """F walks through the words base[0..nw-1]; x is the value handed out under gate in loop t"""
    def __init__(self, F, base, nw, ctx):
        self.F = F; self.base = base; self.nw = nw; self.ctx = ctx; self.words = set()
    def S(self, t):
        return self.norm(self.F.S(t))
    def word(self, i): return mk('at', self.base, i)
    def norm(self, t):
        """base[0] is at(base,0) however it is reached"""
        F = self.F
        for y in subterms(t):
            if y.op == 'fld' and y.a[0] is self.base and re.match(r'f\d+$', y.a[1]) and int(y.a[1][1:]) % 8 == 0:
                t = subst(F.g, t, y, self.word(const(int(y.a[1][1:]) // 8)))
        return t
    def SB(self, f): return self.norm(self.F.v.SB(f))
    # ---- proof steps: formulas over linear arithmetic
    def must(self, care, f, what, ev_=None):
        """f holds whenever care does"""
        bad = band(care, bnot(f))
        if sat(bad) is None: return
        kn = set(self.known)
        x = witness(bad, {y for y in kn if y.op in ('at', 'rest')} | self.words, kn | {fld(self.nw.a[0], 'GNSet._nbp')} if self.nw.op == 'fld' else kn)
        if x: raise Bad('%s (for %s)' % (what, ', '.join('%s=%s' % (show(k_)[:60], v if v < 99999 else hex(v)) for k_, v in x.items())), ev_)
        ms = [a for a in atoms_of(rules_set.nob2i(bad)) if not (a.op in ('lt0', 'eq0') and set(lin_of(a.a[0])[1]) <= kn)]
        if ms and sat(bad, avoid=set(ms)) is None: raise Unk('%s: depends on %s' % (what, show(ms[0])[:100]))
        raise Bad('%s (can fail if [%s])' % (what, bshow(bad)[:240]), ev_)
    def same(self, care, got, exp, what, ev_=None):
        """got equals exp whenever care does"""
        for g, v in ite_cases(got):
            for h, w in ite_cases(exp):
                if v is w: continue
                c = band(care, g, h)
                if sat(c) is None: continue
                d = cmp_eq0(add(v, w, -1))
                if sat(band(c, bnot(d))) is None: continue
                kn = set(self.known)
                if not set(lin_of(v)[1]) <= kn: raise Unk('%s: value %s' % (what, show(v)[:100]))
                self.must(c, d, '%s: is %s, should be %s' % (what, show(v)[:80], show(w)[:80]), ev_)
    def scan(self, Wn, Cn, w0, c0, care, what, nonempty=False):
        """(Wn,Cn) is the first position at or after the word w0 whose rest is c0"""
        F = self.F; nw = self.nw
        hs = []
        for y in subterms(Wn) + subterms(Cn):
            if y.op == 'phi' and y is not w0 and y is not c0:
                for h, L in F.g.loops.items():
                    if y in L.phis and h not in hs and h != self.outer: hs.append(h)
        if len(hs) != 1: raise Unk('%s: %s' % (what, 'no loop over the words' if not hs else 'several loops'))
        L = F.g.loops[hs[0]]; t = F.v.trav[hs[0]]
        ws = []; cs = []
        for p, (ins, init) in L.phis.items():
            if not isinstance(p, T) or p.info.get('back') is None: continue
            b = self.S(p.info['back'])
            if b is p: continue
            if add(b, p, -1) is const(1): ws.append(p)
            elif any(y.op == 'at' and y.a[0] is self.base for y in subterms(b)): cs.append(p)
            elif any(y is p for y in subterms(Wn) + subterms(Cn)): 
                d = add(b, p, -1)
                if isc(d): raise Bad('%s: goes %s words further instead of one' % (what, show(d)))
                raise Unk('%s: %s' % (what, show(b)[:80]))
        if len(ws) != 1 or len(cs) > 1: raise Unk(what + ': variables of the scan')
        w = ws[0]; wi = self.S(L.phis[w][1])
        shadow = None
        if cs and self.S(cs[0].info['back']) is self.word(w) and self.S(L.phis[cs[0]][1]) is not self.word(wi):
            # the word is read at the head of the turn; the variable has the one before, which was empty
            shadow = cs.pop()
        K = self.SB(F.v.latch_gate(L))
        nonneg = bnot(cmp_lt0(w)); top = bnot(cmp_lt0(nw))
        inb = cmp_lt0(add(w, nw, -1))
        if cs:
            c = cs[0]; self.words.add(c)
            self.known = {w, c, nw, w0, c0} | set(lin_of(nw)[1]) | set(lin_of(w0)[1])
            self.same(care, wi, w0, what + ': first word looked at')
            self.initc(care, self.S(L.phis[c][1]), w0, c0, what)
            z = cmp_eq0(c); pos = bnot(cmp_lt0(c)); st = band(nonneg, top, pos, bor(inb, band(cmp_eq0(nw), cmp_eq0(w), z)))
            if sat(band(care, cmp_eq0(nw))) is None: st = band(st, inb)
            self.must(band(st, K), z, what + ': a word that still has elements is left')
            self.must(band(st, K), cmp_lt0(add(add(w, const(1)), nw, -1)), what + ': reads past the last word')
            self.must(band(st, z, cmp_lt0(add(add(w, const(1)), nw, -1))), K, what + ': stops before the last word')
            self.nextword(band(st, K), self.S(c.info['back']), add(w, const(1)), what)
            out = band(st, bnot(K))
            self.same(band(out, bnot(z)), Wn, w, what + ': word reached')
            self.same(band(out, bnot(z)), Cn, c, what + ': elements of the word reached')
            if not nonempty:
                self.same(band(out, z), Wn, nw, what + ': position after the last element')
                self.same(band(out, z), Cn, const(0), what + ': position after the last element')
        else:
            c = self.word(w)
            self.known = {w, c, nw, w0, c0} | set(lin_of(nw)[1]) | set(lin_of(w0)[1]) 
            z = cmp_eq0(c); pos = band(bnot(cmp_lt0(c)), bnot(cmp_lt0(c0))); st = band(nonneg, top, pos, bnot(cmp_lt0(add(nw, w, -1))))
            E = self.SB(L.entry)
            if self.outer is not None and sat(band(care, bnot(E))) is None and wi is w0:
                # the rest of a word is looked at with the others: only at the start
                if c0 is not self.word(w0): raise Unk(what + ': entry of the scan')
                E0 = TRUE
            elif wi is w0 and c0 is self.word(w0): E0 = TRUE
            else:
                E0 = cmp_eq0(c0)
                self.same(band(care, E0), wi, add(w0, const(1)), what + ': first word looked at')
                self.must(band(care, pos, E0), E, what + ': does not look further when a word is done')
                self.must(band(care, pos, E), E0, what + ': a word that still has elements is left')
                nE = bnot(E0)
                self.same(band(care, pos, nE), Wn, w0, what + ': word reached')
                self.same(band(care, pos, nE), Cn, c0, what + ': elements of the word reached')
            care2 = band(st, E0)
            if shadow is not None:
                if wi is w0: raise Unk(what + ': variables of the scan')
                self.initc(band(care, E0), self.S(L.phis[shadow][1]), w0, c0, what)
                Cn = subst(F.g, Cn, shadow, const(0)); Wn = subst(F.g, Wn, shadow, const(0))
            self.must(band(care2, K), band(inb, z), what + ': a word that still has elements is left, or reads past the last word')
            self.must(band(care2, inb, z), K, what + ': stops before the last word')
            out = band(care2, bnot(K))
            self.same(band(out, inb), Wn, w, what + ': word reached')
            self.same(band(out, inb), Cn, c, what + ': elements of the word reached')
            if not nonempty:
                self.same(band(out, bnot(inb)), Wn, nw, what + ': position after the last element')
                self.same(band(out, bnot(inb)), Cn, const(0), what + ': position after the last element')
    def initc(self, care, got, w0, c0, what):
        for g, v in ite_cases(got):
            c = band(care, g)
            if sat(c) is None or v is c0: continue
            if v is const(0) and sat(band(c, cmp_lt0(add(w0, self.nw, -1)))) is None: continue
            if callable(self.c0ok) and self.c0ok(v): continue
            if isc(v) or v.op == 'at' and v.a[0] is self.base: raise Bad('%s: starts with %s, should be %s' % (what, show(v)[:60], show(c0)[:60]))
            raise Unk('%s: starts with %s' % (what, show(v)[:80]))
    def nextword(self, care, got, i, what):
        for g, v in ite_cases(got):
            c = band(care, g)
            if sat(c) is None or v is self.word(i): continue
            if v.op == 'at' and v.a[0] is self.base:
                self.must(c, cmp_eq0(add(v.a[1], i, -1)), '%s: the word taken is number %s, should be %s' % (what, show(v.a[1])[:50], show(i)[:50]))
                continue
            raise (Bad if isc(v) else Unk)('%s: the next word is %s' % (what, show(v)[:80]))
    def position(self, x, what):
        """(W,C) with x = 64*W + lowest element of C"""
        c, d = lin_of(x)
        zs = [y for y in d if ctz_arg(y) is not None]
        if len(zs) != 1:
            ps = [y for y in subterms(x) if y.op == 'phi']; lv = leaves(x)
            if len(ps) == 2 and lv and lv[0] == set(ps):
                def right(W, C):
                    for c in SAMPLES:
                        for w in (0, 1, 2, 600):
                            v = ev(x, {W: w, C: c})
                            if v is None or v != 64 * w + (c & -c).bit_length() - 1: return False
                    return True
                if not right(*ps) and not right(ps[1], ps[0]): raise Bad('%s: the element is %s' % (what, show(x)[:120]))
            raise Unk('%s: element %s' % (what, show(x)[:100]))
        z = zs[0]; C = ctz_arg(z)
        rest = mklin(c, {y: v for y, v in d.items() if y is not z})
        if C.op == 'trunc' or z.op == 'trunc' and z.a[0] < 8: raise Bad('%s: only part of the word is looked at (%s)' % (what, show(z)[:80]))
        c, d2 = lin_of(rest)
        if d[z] != 1 or c % 64 or any(v % 64 for v in d2.values()) or not d2: raise (Unk if not d2 else Bad)('%s: the element is %s' % (what, show(x)[:120]))
        W = mklin(c // 64, {y: v // 64 for y, v in d2.items()})
        for y in d2:
            if y.op == 'trunc' and isinstance(y.a[0], int) and y.a[0] < 10: raise Bad('%s: the number of the word is cut to %d bits, a set can have 1024 words' % (what, y.a[0]))
        return W, C
    def visit(self, e, k_, what='iteration'):
        """every element is handed to the call e exactly once, in ascending order"""
        F = self.F
        ts = F.under(e)
        if not ts: raise Unk(what + ': not in a loop')
        if len(ts) != 1: raise Unk(what + ': nested loops')
        t = ts[0]; h = t.h; L = F.g.loops[h]
        self.outer = h
        x = self.S(e.args[k_])
        W, C = self.position(x, what)
        if C.op != 'phi' or C not in L.phis: raise Unk('%s: rest of the word is %s' % (what, show(C)[:80]))
        vs = [y for y in lin_of(W)[1]]
        if any(y.op != 'phi' or y not in L.phis for y in vs): raise Unk('%s: word is %s' % (what, show(W)[:80]))
        def at_(which):
            def v(q): return self.S(L.phis[q][1] if which == 'init' else q.info['back'])
            c, d = lin_of(W); r = const(c)
            w = None
            for y, m in d.items():
                vy = v(y)
                if vy.op == 'ite' and (m != 1 or len(d) > 1 or c): raise Unk(what + ': word')
                r = add(r, mulc(vy, m)) if vy.op != 'ite' else vy
            return r, v(C)
        self.words.add(C); self.known = {C, self.nw} | set(lin_of(W)[1]) | set(lin_of(self.nw)[1])
        inv = band(bnot(cmp_lt0(add(C, const(-1)))), bnot(cmp_lt0(W)), cmp_lt0(add(W, self.nw, -1)))
        end = band(cmp_eq0(C), cmp_eq0(add(W, self.nw, -1)), bnot(cmp_lt0(self.nw)))
        g = self.SB(e.gate)
        self.must(inv, g, what + ': an element is not visited', e)
        self.must(band(end, g), FALSE, what + ': goes on after the last element', e)
        K = self.SB(F.v.latch_gate(L))
        self.must(inv, K, what + ': stops early', e)
        self.must(band(end, K), FALSE, what + ': goes on after the last element', e)
        # the first position
        Wi, Ci = at_('init')
        self.c0ok = None
        self.scan(Wi, Ci, const(0), self.word(const(0)), bnot(cmp_lt0(self.nw)), what + ', first element')
        # the next position
        Wb, Cb = at_('back')
        def ok(v):
            if cleared(v, C): return True
            if v is C or isc(v): raise Bad('%s: after a visit the rest of the word is %s' % (what, show(v)[:80]), e)
            like(v, lambda z: False, lambda c: c & (c - 1), C, what + ': rest of the word after a visit')
        self.c0ok = ok
        self.scan(Wb, Cb, W, mk('rest', C), band(inv, bnot(cmp_lt0(mk('rest', C)))), what + ', next element')
        return x, t, L
def ctz_arg(t):
    t = uncast(t)
    return t.a[0] if t.op == 'cttz' else None

def gwords(F, a): o = F.A(a); return mk('fld', o, 'GNSet._t'), mk('fld', o, 'f0')

@rule('C24')
def walks(r):
    TG = 'C24'
    def growable(nm, ctx):
        def go():
            F = k(r, nm)
            b, n = gwords(F, 0)
            Walk(F, b, n, ctx).visit(F.one(F.calls('USeen::operator()'), 'the visit'), 1, ctx)
        r.ob(TG, ctx, go)
    growable('k_gn_walk', 'range-for over a growable set')
    growable('k_gn_walkp', 'loop with iterators over a growable set')
    def fixed(nm, ctx):
        def go():
            F = k(r, nm)
            Walk(F, F.A(0), const(3), ctx).visit(F.one(F.calls('USeen::operator()'), 'the visit'), 1, ctx)
        r.ob(TG, ctx, go)
    fixed('k_nat_walk', 'range-for over a fixed-size set')
    fixed('k_nat_cwalk', 'loop with constant iterators over a fixed-size set')

def callset(e): return e.ret
@rule('C24')
def folds(r):
    """functions of the library that go through a set"""
    TG = 'C24'
    def acc(F, L, rv, keep, what):
        """the phi of the loop that is returned: (start, value after a visit)"""
        if rv.op != 'phi' or rv not in L.phis: raise Unk('%s: result %s' % (what, show(rv)[:80]))
        return F.S(L.phis[rv][1]), F.S(rv.info['back'])
    def sum_():
        F = k(r, 'k_gnset_sum'); ctx = 'sum'
        b, n = gwords(F, 0)
        es = F.calls('UTerm::operator()')
        if len(es) > 1:
            for e in es:
                x = F.S(e.args[1])
                for f in es:
                    y = F.S(f.args[1])
                    if y is not x and F.under(e) == F.under(f) and (y.op == 'and' and any(z is x for z in y.a) or isc(add(y, x, -1))) and not satis(band(F.gate(e), F.gate(f))): raise Bad('sum: the term of %s instead of that of %s' % (show(y)[:80], show(x)[:80]), f)
        e = F.one(es, 'the term')
        x, t, L = Walk(F, b, n, ctx).visit(e, 1, ctx)
        rv = uncast(F.retval()); i, bk = acc(F, L, rv, None, ctx)
        val(i, const(0), ctx + ': start')
        if uncast(bk) is not add(rv, F.S(e.ret)):
            xs = [v for g, v in ite_cases(bk) if not ({y for y in subterms(v) if y.op not in ('lin', 'c', 'trunc')} - set(subterms(F.S(e.ret))) <= {rv})]
            if xs: raise Unk('sum: total %s' % show(xs[0])[:100])
            raise Bad('sum: after a term the total is %s' % show(bk)[:120], e)
    r.ob(TG, 'sum adds the term of every element', sum_)
    def extreme(nm, ctx, start, keep):
        def go():
            F = k(r, nm); b, n = gwords(F, 0)
            p = F.one(F.calls('UPred::operator()'), 'the filter'); e = F.one(F.calls('UTerm::operator()'), 'the term')
            x, t, L = Walk(F, b, n, ctx).visit(p, 1, ctx)
            if F.S(e.args[1]) is not x: raise Bad(ctx + ': the term of another element', e)
            ok = F.g.tobool(p.ret) if not isinstance(p.ret, Bdd) else p.ret
            ok = F.v.SB(ok)
            chk(F.gate(e), ok, ctx + ': the term is computed', e)
            rv = F.retval(); i, bk = acc(F, L, rv, None, ctx)
            val(i, const(start), ctx + ': start')
            tv = F.S(e.ret); d = add(tv, rv, -1)
            better = band(ok, cmp_lt0(d) if keep < 0 else cmp_lt0(mulc(d, -1)))
            for g, v in ite_cases(bk):
                if v is rv:
                    if satis(band(g, better)): raise Bad('%s: a better value is not kept (if %s)' % (ctx, bshow(g)[:160]), e)
                elif v is tv:
                    worse = bor(bnot(ok), cmp_lt0(mulc(d, -1)) if keep < 0 else cmp_lt0(d))
                    if satis(band(g, worse)): raise Bad('%s: a worse value is kept (if %s)' % (ctx, bshow(g)[:160]), e)
                else: raise Unk('%s: value %s' % (ctx, show(v)[:80]))
        r.ob(TG, ctx, go)
    extreme('k_gnset_min3', 'the least term over the chosen elements', 2147483647, -1)
    extreme('k_gnset_max3', 'the largest term over the chosen elements', -2147483648, 1)
    def filt():
        F = k(r, 'k_gnset_filter'); ctx = 'filter'; res = F.g.args[0]
        b, n = gwords(F, 0)
        p = F.one(F.calls('UPred::operator()'), 'the filter')
        x, t, L = Walk(F, b, n, ctx).visit(p, 1, ctx)
        i = F.one(F.calls('GNSet::insert'), 'keeping the element')
        if F.S(i.args[0]) is not F.S(res): raise Unk('filter: other set')
        ok = F.v.SB(F.g.tobool(p.ret) if not isinstance(p.ret, Bdd) else p.ret)
        if F.S(i.args[1]) is not x: raise Bad('filter: another element is kept', i)
        if F.under(i) != F.under(p): raise Unk('filter: loops')
        chk(F.gate(i), ok, 'filter: the element is kept', i)
        for e in F.calls('GNSet::remove', 'GNSet::clear'): raise Bad('filter: loses elements', e)
    r.ob(TG, 'filter keeps exactly the elements chosen', filt)
    def least():
        F = k(r, 'k_gn_min'); ctx = 'min'; b, n = gwords(F, 0)
        W = Walk(F, b, n, ctx); W.outer = None; W.c0ok = None
        rv = W.S(F.retval())
        emp = FALSE; ws = []; cs = []
        for g, v in ite_cases(rv):
            if v is const(2147483647): emp = bor(emp, g); continue
            if isc(v): raise Bad('min: gives %s' % show(v))
            w, c = W.position(v, ctx); ws.append((g, w)); cs.append((g, c))
        if not ws: raise Bad('min: never an element')
        # empty: the size counted is 0
        ks = atoms_of(emp)
        if len(ks) != 1 or ks[0].op not in ('lt0', 'eq0'): raise Unk('min: empty set')
        q = list(lin_of(ks[0].a[0])[1])
        if len(q) != 1 or q[0].op != 'phi': raise Unk('min: empty set')
        def phis(t): return [y for y in subterms(t) if y.op == 'phi']
        b_ = q[0].info.get('back')
        if b_ is None or 'ctpop' not in [y.op for y in subterms(W.S(b_))]: raise Unk('min: empty set')
        W.known = {q[0]}; W.must(band(emp, bnot(cmp_lt0(q[0]))), cmp_eq0(q[0]), 'min: an empty set'); W.must(cmp_eq0(q[0]), emp, 'min: an empty set')
        ne_ = bnot(emp)
        Wn, Cn = ite([(constrain(g, ne_), w) for g, w in ws]), ite([(constrain(g, ne_), c) for g, c in cs])
        W.scan(Wn, Cn, const(0), W.word(const(0)), bnot(cmp_lt0(n)), ctx, nonempty=True)
    r.ob(TG, 'min is the first element', least)
    def largest():
        F = k(r, 'k_gn_max'); ctx = 'max'; b, n = gwords(F, 0)
        W = Walk(F, b, n, ctx); W.c0ok = None
        rv = W.S(F.retval())
        xs = [(g, v) for g, v in ite_cases(rv) if not isc(v)]; es = [(g, v) for g, v in ite_cases(rv) if isc(v)]
        if any(v is not const(-2147483648) for _, v in es): raise Bad('max: gives %s for an empty set' % show(es[0][1]))
        if len(xs) != 1 or len(es) != 1: raise Unk('max: result')
        emp = es[0][0]; ks = atoms_of(emp)
        if len(ks) != 1 or ks[0].op not in ('lt0', 'eq0'): raise Unk('max: empty set')
        q = list(lin_of(ks[0].a[0])[1])
        if len(q) != 1 or q[0].op != 'phi' or q[0].info.get('back') is None or 'ctpop' not in [y.op for y in subterms(W.S(q[0].info['back']))]: raise Unk('max: empty set')
        W.known = {q[0]}; W.must(band(emp, bnot(cmp_lt0(q[0]))), cmp_eq0(q[0]), 'max: an empty set'); W.must(cmp_eq0(q[0]), emp, 'max: an empty set')
        fw, fc = W.position(xs[0][1], ctx)
        hs = [h for h, L in F.g.loops.items() if fw in L.phis and fc in L.phis]
        if len(hs) != 1: raise Unk('max: position')
        h = hs[0]; L = F.g.loops[h]; W.outer = h
        w, c = W.S(fw.info['back']), W.S(fc.info['back'])
        if w not in L.phis or c not in L.phis: raise Unk('max: position')
        i = lambda p: W.S(L.phis[p][1])
        if i(fw) is not i(w) or i(fc) is not i(c): raise Unk('max: start')
        # the last position in the word where the walk starts
        ent = W.SB(L.entry); K = W.SB(F.v.latch_gate(L))
        for g, v in ite_cases(i(w)):
            W.known = {w, n, v} | set(lin_of(v)[1])
            cr = band(g, bnot(cmp_lt0(n)), bnot(cmp_lt0(add(w, v, -1))))
            W.must(band(cr, cmp_eq0(add(w, v, -1))), K, 'max: does not go through all elements of the last word')
            W.must(band(cr, K), cmp_eq0(add(w, v, -1)), 'max: goes on after the last element')
        inv = band(bnot(cmp_lt0(add(c, const(-1)))), bnot(cmp_lt0(w)), cmp_lt0(add(w, n, -1)))
        def ok(v):
            if cleared(v, c): return True
            like(v, lambda z: False, lambda y: y & (y - 1), c, 'max: rest of the word')
        W.c0ok = ok
        W.scan(W.S(w.info['back']), W.S(c.info['back']), w, mk('rest', c), band(inv, bnot(cmp_lt0(mk('rest', c)))), 'max, next element')
        # it starts in the last word that is not empty
        top = [p for hh, l in F.g.loops.items() for p in l.phis if isinstance(p, T) and hh != h and p.info.get('back') is not None and add(W.S(p.info['back']), p, -1) is const(-1)]
        if len(top) != 1: raise Unk('max: last word')
        lw = top[0]; hh = [x for x, l in F.g.loops.items() if lw in l.phis][0]
        # the word looked at: the variable, or the one before it when that is moved first
        off = add(add(n, const(-1)), W.S(F.g.loops[hh].phis[lw][1]), -1)
        if off is const(-1): lx = add(lw, const(-1))
        else:
            lx = lw
            val(W.S(F.g.loops[hh].phis[lw][1]), add(n, const(-1)), 'max: first word looked at')
        W.known = {lw, lx, n, W.word(lx)} | set(lin_of(n)[1])
        Kl = W.SB(F.v.latch_gate(F.g.loops[hh])); cl = W.word(lx)
        W.must(band(Kl, bnot(cmp_lt0(cl))), cmp_eq0(cl), 'max: a word with elements is passed over')
        W.must(band(cmp_eq0(cl), bnot(cmp_lt0(add(lx, const(-1))))), Kl, 'max: stops at an empty word')
        l16 = [y for y in subterms(i(w)) + [z for p in F.g.loops.values() for q2 in p.phis if isinstance(q2, T) for z in subterms(W.S(p.phis[q2][1]))] if uncast(y) is lx]
        l0 = next((y for y in l16 if y is not lx), lx)
        W.outer = None
        W.c0ok = None
        W.scan(i(w), i(c), l0, W.word(l0), band(bnot(cmp_lt0(l0)), bnot(cmp_lt0(n)), cmp_lt0(add(l0, n, -1))), 'max, first position', nonempty=True)
    r.ob(TG, 'max is the last element', largest)
