"""Sets of naturals held in words of bits: what an operation does to an arbitrary element.

An arbitrary element is written 64*IX + B.  Every write into an array of words is summarised as a condition on
IX and B (which elements it concerns) and a boolean function of the former membership; the summaries are composed
in program order and the result is compared with the meaning of the operation, over linear arithmetic."""
from rules import *
from rules_val import loopgate
import rules_cont
from rules_cont import k, alloc_of, newarr
import core, gvg

IX, B = mk('wordix'), mk('bitix')
X = add(mulc(IX, 64), B)
MXW, NBP, TT = 'f0', 'GNSet._nbp', 'GNSet._t'

# ------------------------------------------------------------ arithmetic ---
def cons_of(t): c, d = lin_of(t); return c, d
def tight(c, d):
    from math import gcd
    g = 0
    for v in d.values(): g = gcd(g, v)
    g = abs(g)
    if g > 1: return -((-c) // g), {k_: v // g for k_, v in d.items()}      # c + g*s <= 0  <=>  s <= floor(-c/g)
    return c, d
def feasible(cons, ne):
    """integer-tightened Fourier-Motzkin; False only if there is no solution"""
    if not feas0(cons): return False
    for n, (c, d) in enumerate(ne):
        if not d:
            if c == 0: return False
            continue
        rest = ne[:n] + ne[n + 1:]
        lo, hi = cons + [(c + 1, d)], cons + [(-c + 1, {k_: -v for k_, v in d.items()})]
        if not feas0(lo): return feasible(hi, rest)
        if not feas0(hi): return feasible(lo, rest)
    ne = [x for x in ne if x[1]]
    if ne and len(ne) <= 7:
        c, d = ne[0]
        return feasible(cons + [(c + 1, d)], ne[1:]) or feasible(cons + [(-c + 1, {k_: -v for k_, v in d.items()})], ne[1:])
    return True
def feas0(cons):
    cur = set()
    for c, d in cons:
        d = {k_: v for k_, v in d.items() if v}
        if not d:
            if c > 0: return False
            continue
        c, d = tight(c, d)
        cur.add((c, tuple(sorted(d.items(), key=lambda kv: kv[0].id))))
    cur = list(cur)
    while True:
        best = {}
        for c, d in cur:
            for v, _ in d:
                best.setdefault(v, [0, 0, 1])
        if not best: return True
        for c, d in cur:
            for v, x in d:
                best[v][0 if x > 0 else 1] += 1; best[v][2] = max(best[v][2], abs(x))
        v = min(best, key=lambda q: (best[q][2] > 1, best[q][0] * best[q][1]))
        pos, neg, oth = [], [], []
        for c, d in cur:
            q = dict(d)
            (pos if q.get(v, 0) > 0 else neg if q.get(v, 0) < 0 else oth).append((c, q))
        new = {}
        def put(c, d):
            if not d: return c <= 0
            c, d = tight(c, d)
            key = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
            if key not in new or new[key] < c: new[key] = c
            return True
        for c, d in oth: put(c, d)
        for c1, d1 in pos:
            for c2, d2 in neg:
                a, b = d1[v], -d2[v]
                d = {}
                for q, x in d1.items(): d[q] = d.get(q, 0) + b * x
                for q, x in d2.items(): d[q] = d.get(q, 0) + a * x
                if not put(b * c1 + a * c2, {q: x for q, x in d.items() if x}): return False
        if len(new) > 400: return True
        cur = [(c, d) for d, c in new.items()]
def b2is(t): return [x for x in lin_of(t)[1] if x.op in ('b2i', 'ite')]
def nob2i(f):
    """arithmetic atoms without conditions inside"""
    def at_(a):
        if a.op not in ('lt0', 'eq0'): return None
        bs = b2is(a.a[0])
        if not bs: return None
        x = bs[0]; c, d = lin_of(a.a[0])
        base = mklin(c, {k_: v for k_, v in d.items() if k_ is not x})
        cmpf = cmp_lt0 if a.op == 'lt0' else cmp_eq0
        cs = [(x.a[0], const(1)), (bnot(x.a[0]), const(0))] if x.op == 'b2i' else list(x.a)
        return bor(*[band(g, nob2i(cmpf(add(base, mulc(w, d[x]))))) for g, w in cs])
    return bsubst(f, at_)
def shifted(t):
    """(q) if t is q >> 6 or q & 63"""
    if t.op in ('ashr', 'lshr') and t.a[1] is const(6): return 'div', t.a[0]
    if t.op == 'and' and len(t.a) == 2 and any(x is const(63) for x in t.a): return 'mod', [x for x in t.a if x is not const(63)][0]
    return None
def murky(a):
    """an atom about something not understood here"""
    if a.op in ('in', 'junk', 'inlist', 'all'): return False
    if a.op not in ('lt0', 'eq0'): return True
    return any(y.op in ('phi', 'exit', 'ld', 'call', 'exv', 'intr', 'ite') for y in subterms(a))
def breaks(f, known=()):
    """f has a solution.  None if it has none; Unk if only with something not understood"""
    if sat(f) is None: return False
    ks = set(known)
    ms = [a for a in atoms_of(nob2i(f)) if murky(a) and not any(y in ks for y in subterms(a))]
    if ms and sat(f, avoid=set(ms)) is None: raise Unk('depends on %s' % show(ms[0])[:80])
    return True
def sat(f, lim=4000, avoid=()):
    """a cube of f that has a solution, or None"""
    f = nob2i(f)
    if f is FALSE: return None
    n = [0]
    # facts about the quantities that occur
    facts = [(0, {B: -1}), (-63, {B: 1}), (0, {IX: -1})]; seen = set()
    def fact(t):
        for y in lin_of(t)[1]:
            if y in seen: continue
            seen.add(y)
            s = shifted(y)
            if s:
                D, M = mk('ashr', s[1], const(6)), bit_and(64, s[1], const(63))
                c, d = lin_of(s[1])
                if M.op == 'and' or M.op == 'arg' or True:
                    r = dict(d); r[D] = r.get(D, 0) - 64
                    if s[0] == 'mod' or M in seen or True:
                        r[M] = r.get(M, 0) - 1
                        facts.append((c, r)); facts.append((-c, {k_: -v for k_, v in r.items()}))
                    facts.append((0, {M: -1})); facts.append((-63, {M: 1}))
                if y.op == 'lshr': facts.extend([(0, {y: 1, D: -1}), (0, {y: -1, D: 1})])
                seen.add(D); seen.add(M)
                for z in d: fact(z)
            if y.op in ('fld', 'fldv') and y.a[1] in (MXW, NBP) or y.op == 'arg' and y.info and y.info.get('unsigned') or nonneg(y): facts.append((0, {y: -1}))
    for a in atoms_of(f):
        if a.op in ('lt0', 'eq0'): fact(a.a[0])
    def rec(g, cons, ne):
        if g is FALSE: return None
        n[0] += 1
        if n[0] > lim: raise Unk('too many cases')
        if not feasible(facts + cons, ne): return None
        if g is TRUE: return cons, ne
        a = core._atoms[g.v]
        for br, sgn_ in ((g.hi, True), (g.lo, False)):
            if a.op == 'lt0':
                c, d = lin_of(a.a[0])
                r = rec(br, cons + [(c + 1, d) if sgn_ else (-c, {k_: -v for k_, v in d.items()})], ne)
            elif a.op == 'eq0':
                c, d = lin_of(a.a[0])
                r = rec(br, cons + [(c, d), (-c, {k_: -v for k_, v in d.items()})], ne) if sgn_ else rec(br, cons, ne + [(c, d)])
            else: r = rec(br, cons, ne)
            if r is not None: return r
        return None
    if avoid:
        # both values of an atom not understood must do
        f = bsubst(f, lambda a: None)
        for a in avoid: f = band(constrain(f, atom(a)), constrain(f, bnot(atom(a))))
    return rec(f, [], [])
def implied(f, g): return sat(band(f, bnot(g))) is None

# ---------------------------------------------------- a versioned view ---
class VView(View):
    """loads of the set's own fields keep apart the value on entry and later ones"""
    def __init__(self, g, objs): self.objs = objs; View.__init__(self, g)
    def _strip(self, t):
        if t.op == 'ld' and t.a[1] != 'i':
            r, off, idx, path = psplit(t.a[0])
            if not idx:
                b = self.S(r)
                if b in self.objs: return mk('fldv', b, role(off, path), str(t.a[1]))
        if t.op == 'trunc' and t.a[0] in (16, 32):
            x = self.S(t.a[1])
            return mk('trunc', t.a[0], x) if wordy(x) else x          # part of a word is not the word
        return View._strip(self, t)
def wordy(x):
    return x.op == 'at' or x.op in ('xor', 'and', 'or', 'not') and any(wordy(y) for y in x.a if isinstance(y, T)) and not any(isc(y) and 0 <= y.a[0] < 1 << 16 for y in x.a)
def trunc_off(t):
    return t

class Sets:
    """the effect of one function on sets.  `own` gives for every set its (base of the words, number of words)"""
    def __init__(self, F, sets, pre=TRUE, ctx='', objs=None):
        self.F = F; self.ctx = ctx; self.pre = pre
        self.v = VView(F.g, objs if objs is not None else [o for o in sets])
        self.sets = sets
        self.cont = {}; self.size = {}; self.sure = set()
        self.ax = pre
        for o, (b, n) in sets.items():
            self.cont[b] = atom(mk('in', o)); self.size[b] = n
            self.ax = band(self.ax, bimp(atom(mk('in', o)), cmp_lt0(add(IX, n, -1))))
            self.ax = band(self.ax, bnot(cmp_lt0(n)))
        for o in sets:
            for q in sets:
                if o.id >= q.id: continue
                same_ = cmp_eq(o, q)
                if not any(a in (atoms_of(same_)) for e in list(F.events) + list(F.g.rets) if e.gate is not None for a in atoms_of(self.v.SB(e.gate))): continue
                self.ax = band(self.ax, bimp(same_, band(bnot(bxor(isin(o), isin(q))), cmp_eq(sets[o][1], sets[q][1]))))
        self.junk = 0
        self.run()
    def breaks(self, f): return breaks(f, self.sure)
    def S(self, t): return self.v.S(t)
    # --------------------------------------------------------- cells ----
    def arrays(self, p):
        """[(cond, base, index)] of a word address"""
        out = []
        for g, v in ite_cases(self.S(p)):
            if v is NULL: continue
            if v.op == 'adx' and len(v.a[1]) == 1 and v.a[1][0][1] == 8: b, i = v.a[0], v.a[1][0][0]
            elif v.op == 'adx' and all(c % 8 == 0 for _, c in v.a[1]):
                b = v.a[0]; i = const(0)
                for x, c in v.a[1]: i = add(i, mulc(x, c // 8))
            elif v.op == 'adr' and re.match(r'f\d+$', v.a[1]) and int(v.a[1][1:]) % 8 == 0 and self.known(v.a[0]): b, i = v.a[0], const(int(v.a[1][1:]) // 8)
            elif v.op == 'adr' and self.known(v.a[0]): b, i = None, None
            else: b, i = v, const(0)
            if b is not None and b.op == 'adr' and re.match(r'f\d+$', b.a[1]) and int(b.a[1][1:]) % 8 == 0 and self.known(b.a[0]): b, i = b.a[0], add(i, const(int(b.a[1][1:]) // 8))
            out.append((g, b, i))
        return out
    def known(self, b): return b in self.cont or alloc_of(self.F, b) is not None or b.op == 'alloca'
    def content(self, b):
        if b in self.cont: return self.cont[b]
        if b.op == 'ite': return bor(*[band(g, self.content(v)) for g, v in b.a])
        if b is NULL: return FALSE
        al = alloc_of(self.F, b)
        if al is None and b.op != 'alloca': raise Unk('%s: array %s' % (self.ctx, show(b)[:60]))
        self.junk += 1
        self.cont[b] = atom(mk('junk', b))
        if al is not None:
            a = al.args[0]
            ms = [v for g, v in ite_cases(self.S(a)) if not (isc(v) and v.a[0] in (-1, 0xffffffffffffffff))]
            if len(ms) == 1 and ms[0].op == 'exv' and ms[0].a[0].op == 'intr' and 'umul' in ms[0].a[0].a[0]: self.size[b] = ms[0].a[0].a[1]
            elif len(ms) == 1 and isc(ms[0]): self.size[b] = const(ms[0].a[0] // 8)
            elif len(ms) == 1:
                c, d = lin_of(ms[0])
                if c % 8 == 0 and all(v % 8 == 0 for v in d.values()): self.size[b] = mklin(c // 8, {k_: v // 8 for k_, v in d.items()})
        return self.cont[b]
    # ---------------------------------------------------------- bits ----
    def eqb(self, s): return cmp_eq0(add(B, s, -1))
    def ltb(self, s): return cmp_lt0(add(B, s, -1))
    def bitf(self, t, ix, depth=0):
        """bit B of word t; ix: the terms that denote the index IX of the word written"""
        o = t.op
        if o == 'c':
            n = t.a[0] & ((1 << 64) - 1)
            if n == 0: return FALSE
            if n == (1 << 64) - 1: return TRUE
            if n & (n + 1) == 0: return self.ltb(const(n.bit_length()))
            if n & (n - 1) == 0: return self.eqb(const(n.bit_length() - 1))
            raise Unk('constant')
        if o == 'and':
            r = TRUE
            for x in t.a: r = band(r, self.bitf(x, ix))
            return r
        if o == 'or':
            r = FALSE
            for x in t.a: r = bor(r, self.bitf(x, ix))
            return r
        if o == 'xor':
            r = FALSE
            for x in t.a: r = bxor(r, self.bitf(x, ix))
            return r
        if o == 'not': return bnot(self.bitf(t.a[0], ix))
        if o == 'ite':
            r = FALSE
            for g, v in t.a:
                n = len(self.reads); f = self.bitf(v, ix)
                self.reads[n:] = [(b, i, band(g, h)) for b, i, h in self.reads[n:]]
                r = bor(r, band(g, f))
            return r
        if o == 'b2i': return band(cmp_eq0(B), t.a[0])
        if o == 'shl' and isc(t.a[0]):
            n = t.a[0].a[0]
            if n == 1: return self.eqb(t.a[1])
            if n == -1: return bnot(self.ltb(t.a[1]))
            if n == 2: return self.eqb(add(t.a[1], const(1)))
        if o == 'lshr' and isc(t.a[0]) and t.a[0].a[0] in (-1, (1 << 64) - 1): return self.ltb(add(const(64), t.a[1], -1))
        if o == 'lin':
            c, d = lin_of(t)
            if len(d) == 1:
                (x, m), = d.items()
                if m == -1 and c == -1: return bnot(self.bitf(x, ix))
                if x.op == 'shl' and x.a[0] is const(1):
                    if (c, m) == (-1, 1): return self.ltb(x.a[1])
                    if (c, m) == (-1, 2): return self.ltb(add(x.a[1], const(1)))
                    if (c, m) == (0, -1): return bnot(self.ltb(x.a[1]))
                    if (c, m) == (0, -2): return bnot(self.ltb(add(x.a[1], const(1))))
                    if (c, m) == (0, 2): return self.eqb(add(x.a[1], const(1)))
                    if (c, m) == (-1, -1): return bnot(self.eqb(x.a[1]))
        b = i = None
        if o == 'at': b, i = t.a
        elif o == 'fld' and re.match(r'f\d+$', t.a[1]) and int(t.a[1][1:]) % 8 == 0: b, i = t.a[0], const(int(t.a[1][1:]) // 8)
        if b is not None:
            if b.op == 'adr' and re.match(r'f\d+$', b.a[1]) and self.known(b.a[0]): b, i = b.a[0], add(i, const(int(b.a[1][1:]) // 8))
            if i not in ix:
                if b in [x for x, _ in self.sets.values()] and ix and all(len(lin_of(j)[1]) <= 1 for j in ix) and set(lin_of(i)[1]) <= {y for j in ix for y in lin_of(j)[1]}: raise Bad('%s: the word %s of the result comes from the word %s' % (self.ctx, show(list(ix)[0])[:40], show(i)[:40]))
                raise Unk('%s: word %s' % (self.ctx, show(i)[:60]))
            self.reads.append((b, i, TRUE)); return self.content(b)
        raise Unk('%s: word %s' % (self.ctx, show(t)[:80]))
    # ----------------------------------------------------------- run ----
    def rangeof(self, t):
        """(phi, first, past the last) of a counting loop"""
        if t.kind in ('idx', 'vec') and t.phi is not None:
            if t.early or not t.full:
                bs = [b for b, _ in self.sets.values()]
                for x in t.early:
                    c = self.v.SB(x[2]); ats = atoms_of(c)
                    ws = [y for a in ats for y in subterms(a) if y.op == 'at' and y.a[0] in bs and occurs(y, t.phi)]
                    if ws and all(a.op in ('eq0', 'lt0') and not any(y.op in ('phi', 'exit', 'ld', 'call', 'ite') and y is not t.phi for y in subterms(a)) for a in ats) and sat(c) is not None:
                        raise Bad('%s: stops at the first word for which %s, what follows is not done' % (self.ctx, bshow(c)[:120]))
                raise Unk(self.ctx + ': loop may stop early')
            if t.natural[0] != t.h: raise Unk(self.ctx + ': where the loop ends')
            lo, hi = self.S(t.lo), self.S(t.hi)
            if t.step == 1: return t.phi, lo, hi
            if t.step == -1: return t.phi, add(hi, const(1)) if t.eqtest else hi, add(lo, const(1))
            raise Bad('%s: the loop advances by %d' % (self.ctx, t.step))
        # bound chosen by a condition (min of two sizes)
        L = self.F.g.loops[t.h]
        if len(t.exits) != 1 or t.exits[0][0] != t.h: raise Unk(self.ctx + ': loop')
        eg = self.v.SB(t.exits[0][2])
        for phi, (ins, init) in L.phis.items():
            if not isinstance(phi, T) or phi.info.get('back') is None: continue
            if add(phi.info['back'], phi, -1) is not const(1): continue
            ps = [a for a in atoms_of(eg) if occurs(a, phi)]
            if not ps: continue
            gs = [a for a in atoms_of(eg) if a not in ps]
            if len(gs) > 4: continue
            cs = []
            def go(f, rest, cond):
                if rest and f not in (TRUE, FALSE):
                    a = atom(rest[0]); go(constrain(f, a), rest[1:], band(cond, a)); go(constrain(f, bnot(a)), rest[1:], band(cond, bnot(a))); return
                if f is TRUE or f is FALSE: raise Unk('loop')
                xs = atoms_of(f)
                if len(xs) != 1 or xs[0].op != 'lt0': raise Unk('loop')
                c, d = lin_of(xs[0].a[0]); m = d.get(phi)
                rest_ = mklin(c, {y: v for y, v in d.items() if y is not phi})
                if m == 1 and f is bnot(atom(xs[0])): cs.append((cond, mulc(rest_, -1)))
                elif m == -1 and f is atom(xs[0]): cs.append((cond, add(rest_, const(1))))
                else: raise Unk('loop')
            go(eg, gs, TRUE)
            return phi, self.S(init), ite(cs)
        raise Unk(self.ctx + ': loop')
    def stay(self, lo, hi, g, t_):
        """lo <= t_ < hi"""
        f = g
        f = band(f, bor(*[band(h, bnot(cmp_lt0(add(t_, x, -1)))) for h, x in ite_cases(lo)]))
        return band(f, bor(*[band(h, cmp_lt0(add(t_, x, -1))) for h, x in ite_cases(hi)]))
    def run(self):
        F = self.F; g = F.g
        pos = {b: n for n, b in enumerate(g.order)}
        def top(e): return self.v.under(e)[0].h if self.v.under(e) else None
        its = {}
        evs = [e for e in F.events if e.kind in ('store', 'copy', 'set') and all(x is not FALSE for _, x in self.v.levels(e))]
        for e in evs:
            h = top(e)
            its.setdefault(('L', h) if h is not None else ('E', e.idx), []).append(e)
        def key(kv):
            (kd, h), es = kv
            return (pos[h], 0) if kd == 'L' else (pos[es[0].block], es[0].idx)
        seen = set(k_[1] for k_ in its if k_[0] == 'L')
        self.written = []
        for t in self.v.trav.values():
            if len(g.chain(t.h)) != 1: continue
            try: phi, lo, hi = self.rangeof(t)
            except (Unk, Bad): continue
            if t.kind == 'idx' and t.step != 1: continue
            # where the counter stands after the loop
            self.sure.add(phi)
            le = lambda a, b: bor(*[band(h1, h2, bnot(cmp_lt0(add(y, x, -1)))) for h1, x in ite_cases(a) for h2, y in ite_cases(b)])
            self.ax = band(self.ax, bimp(self.v.SB(g.loops[t.h].entry), band(le(lo, phi), le(hi, phi), bor(le(phi, lo), le(phi, hi)))))
        for t in self.v.trav.values():
            if t.kind == '?' and len(g.chain(t.h)) == 1 and t.h not in seen: self.assume_exit(t)
        for (kd, h), es in sorted(its.items(), key=key):
            if kd == 'E': self.single(es[0])
            else: self.loop(self.v.trav[h], es)
        for t in self.v.trav.values():
            if t.kind == '?' and len(g.chain(t.h)) == 1 and t.h in seen: self.assume_exit(t)
    def assume_exit(self, t):
        """past a loop without effect on the words, its exit condition holds"""
        try:
            if self.rangeof(t): return
        except Unk: pass
        L = self.F.g.loops[t.h]
        ex = bor(*[self.v.SB(x[2]) for x in t.exits])
        if any(y.op in ('at', 'exit') for a in atoms_of(ex) for y in subterms(a)): return
        self.ax = band(self.ax, bimp(self.v.SB(L.entry), ex))
        self.sure.update(q for q in L.phis if isinstance(q, T))
    def upd(self, b, cond, f, e):
        old = self.content(b)
        if b in self.size:
            z = self.size[b]
            if self.breaks(band(self.ax, cond, bnot(cmp_lt0(add(IX, z, -1))))):
                raise Bad('%s: a word past the end of the array can be written' % self.ctx, e)
        self.cont[b] = bite(cond, f, old)
        self.written.append((b, e))
    def single(self, e):
        g = band(*[x for _, x in self.v.levels(e)])
        if e.kind == 'store':
            for c, b, i in self.arrays(e.ptr):
                if b is None or not self.isarr(b, e): continue
                v = self.S(e.value)
                v = pick(v, c) if v.op == 'ite' else v
                self.reads = []
                f = self.bitf(v, {i})
                cond = band(g, c, cmp_eq0(add(IX, i, -1)))
                if sat(band(self.ax, g, c, cmp_lt0(i))) is not None: raise Unk(self.ctx + ': negative index')
                self.upd(b, cond, f, e)
            return
        self.block(e, g)
    def isarr(self, b, e):
        """a word of an array (and not a field of some object)"""
        if e.size != 8: return False
        if b in self.cont: return True
        if b.op == 'alloca': return b in self.locals_()
        return alloc_of(self.F, b) is not None or (b.op == 'fld' and b.a[1] == TT)
    def locals_(self):
        """local arrays of words"""
        if not hasattr(self, '_loc'):
            self._loc = {o for o in self.sets if o.op == 'alloca'}
            for e in self.F.events:
                if e.kind == 'store':
                    for _, v in ite_cases(self.S(e.ptr)):
                        if v.op == 'adx' and v.a[0].op == 'alloca' and all(c == 8 for _, c in v.a[1]): self._loc.add(v.a[0])
        return self._loc
    def block(self, e, g):
        n = self.S(e.args[2])
        c, d = lin_of(n)
        if c % 8 or any(v % 8 for v in d.values()):
            if not any(self.isarr(b, _E8) for _, b, _ in self.arrays(e.ptr) if b is not None): return
            raise Unk(self.ctx + ': length of a block')
        n = mklin(c // 8, {k_: v // 8 for k_, v in d.items()})
        for c, b, i in self.arrays(e.ptr):
            if b is None or not self.isarr(b, _E8): continue
            cond = band(g, c, bnot(cmp_lt0(add(IX, i, -1))), cmp_lt0(add(IX, add(i, n), -1)))
            if e.kind == 'set':
                v = self.S(e.args[1])
                if not isc(v): raise Unk('block')
                f = FALSE if v.a[0] & 255 == 0 else TRUE if v.a[0] & 255 == 255 else None
                if f is None: raise Unk('block')
            else:
                ss = [(h, sb, si) for h, sb, si in self.arrays(e.args[1])]
                f = FALSE
                for h, sb, si in ss:
                    if si is not i or sb is None: raise Unk('block')
                    f = bor(f, band(h, self.content(sb)))
                    z = self.size.get(sb)
                    if z is not None and self.breaks(band(self.ax, cond, h, bnot(cmp_lt0(add(IX, z, -1))))): raise Bad('%s: words past the end of the array can be read' % self.ctx, e)
            self.upd(b, cond, f, e)
    def loop(self, t, es):
        """writes of one loop, in one go"""
        ups = []
        if any(b is not None and b.op == 'phi' for e in es if e.kind == 'store' for _, b, _ in self.arrays(e.ptr)): raise Unk(self.ctx + ': written through a moving pointer')
        es = [e for e in es if e.kind != 'store' or any(b is not None and self.isarr(b, e) for _, b, _ in self.arrays(e.ptr))]
        if not es:
            self.assume_exit(t); return
        if any(e.kind != 'store' for e in es): raise Unk(self.ctx + ': block operation in a loop')
        if any(len(self.v.under(e)) != 1 for e in es): raise Unk(self.ctx + ': nested loops')
        lg = self.v.SB(self.F.g.loops[t.h].entry)
        if t.kind == 'ptr':
            return self.listloop(t, es, lg)
        phi, lo, hi = self.rangeof(t)
        D6 = mk('ashr', phi, const(6))
        pre = dict(self.cont)
        for e in es:
            ge = self.v.levels(e)[-1][1]
            for c, b, i in self.arrays(e.ptr):
                if b is None: continue
                if any(b is b2 for b2, *_ in ups): raise Unk(self.ctx + ': several writes to a word')
                ci, di = lin_of(i)
                v = self.S(e.value); v = pick(v, c) if v.op == 'ite' else v
                self.reads = []
                if di.get(phi) == 1 and len(di) == 1:
                    f = self.bitf(v, {i})
                    sh = lambda q: subst(self.F.g, q, phi, add(IX, const(-ci)))
                    cond = self.stay(lo, hi, TRUE, add(IX, const(-ci)))
                    cond = band(lg, cond, sh(band(ge, c)))
                    for rb, _, rg in self.reads:
                        z = self.size.get(rb)
                        if z is not None and self.breaks(band(self.ax, cond, sh(rg), bnot(cmp_lt0(add(IX, z, -1))))): raise Bad('%s: a word past the end of the array can be read' % self.ctx, e)
                    ups.append((b, cond, sh(f), e))
                elif i is D6 or i is mk('lshr', phi, const(6)):
                    f = self.bitf(v, {i})
                    IS = self.eqb(bit_and(64, phi, const(63)))
                    if len(atoms_of(IS)) != 1: raise Unk('bit')
                    on, off = constrain(f, IS), constrain(f, bnot(IS))
                    if occurs(on, phi) or occurs(off, phi):
                        raise Unk(self.ctx + ': bit written') if any(not occurs(a, B) for a in atoms_of(f) if occurs(a, phi)) else Bad('%s: word %s becomes %s' % (self.ctx, show(i), show(v)[:100]), e)
                    if not same(off, self.content(b)): raise Bad('%s: bits of other elements change' % self.ctx, e)
                    gg = subst(self.F.g, subst(self.F.g, band(ge, c), D6, IX), phi, X)
                    cond = band(lg, self.stay(lo, hi, TRUE, X), gg)
                    ups.append((b, cond, on, e))
                else: raise Unk('%s: index %s' % (self.ctx, show(i)[:60]))
        for b, cond, f, e in ups: self.upd(b, cond, f, e)
    def listloop(self, t, es, lg):
        E = t.elem
        if t.early: raise Bad(self.ctx + ': may stop early', es[0])
        for e in es:
            ge = self.v.levels(e)[-1][1]
            for c, b, i in self.arrays(e.ptr):
                if shifted(i) != ('div', E): raise Unk('%s: index %s' % (self.ctx, show(i)[:60]))
                self.reads = []
                v = self.S(e.value); v = pick(v, c) if v.op == 'ite' else v
                f = self.bitf(v, {i})
                IS = self.eqb(bit_and(64, E, const(63)))
                on, off = constrain(f, IS), constrain(f, bnot(IS))
                if occurs(on, E) or occurs(off, E): raise Bad('%s: word %s becomes %s' % (self.ctx, show(i), show(v)[:100]), e)
                if not same(off, self.content(b)): raise Bad('%s: bits of other elements change' % self.ctx, e)
                if occurs(band(ge, c), E): raise Bad('%s: element left out' % self.ctx, e)
                self.size.pop(b, None) if False else None
                z = self.size.get(b)
                cond = band(lg, atom(mk('inlist')), ge, c)
                self.ax = band(self.ax, bimp(atom(mk('inlist')), cmp_lt0(add(IX, z, -1))) if z is not None else TRUE)
                self.upd(b, cond, on, e)
    # --------------------------------------------------------- result ----
    def finraw(self, o, rl, size, ty, probe):
        vs = []
        for e in self.F.g.rets:
            if e.gate is FALSE: continue
            vs.append((self.v.SB(e.gate), self.S(self.F.g.load(e.mem, probe, size, ty))))
        return ite(vs)
    def field(self, o, rl, dflt):
        """value of a field on return"""
        ss = [e for e in self.F.events if e.kind == 'store' and self.S(e.ptr) is (o if rl == 'f0' else mk('adr', o, rl))]
        if not ss: return dflt
        return self.finraw(o, rl, ss[0].size, ss[0].ty, ss[0].ptr)
    def member(self, base, n):
        """membership of the arbitrary element in the set (base, n) leaves behind"""
        inr = bor(*[band(g, cmp_lt0(add(IX, v, -1))) for g, v in ite_cases(n)])
        f = FALSE
        for g, v in ite_cases(base):
            if v is NULL or isc(v): continue
            f = bor(f, band(g, self.content(v)))
        return band(f, inr)
    def expect(self, got, exp, care=TRUE, ev=None, what='an element'):
        bad = band(self.ax, care, bxor(got, exp))
        if not self.breaks(bad): return
        raise Bad('%s: %s is in the result if [%s], should if [%s]' % (self.ctx, what, bshow(nice(got))[:300], bshow(nice(exp))[:300]), ev or (self.written[-1][1] if self.written else None))
class _E: size = 8
_E8 = _E()
def nice(f): return f

def gset(o): return fld(o, TT), fld(o, MXW)
def isin(o): return atom(mk('in', o))
def grown(s, ctx):
    """loops that look for a larger number of words must get there"""
    F = s.F
    for t in s.v.trav.values():
        es = [e for e in F.stores() if t in s.v.under(e) and s.S(e.ptr) in s.v.objs]
        if t.kind != '?' or not es: continue
        e = F.one(es, 'growing')
        cur = [x for x in subterms(s.S(e.value)) if x.op in ('fld', 'fldv') and x.a[1] == MXW] + [x for g in [s.v.SB(x[2]) for x in t.exits] for a in atoms_of(g) for x in subterms(a) if x.op in ('fld', 'fldv') and x.a[1] == MXW]
        for g, v in ite_cases(s.S(e.value)):
            c, d = lin_of(v)
            ok = False
            if len(d) == 0: ok = any(implied(g, cmp_lt0(add(q, v, -1))) for q in cur)
            else:
                for q, m in d.items():
                    if q in cur and implied(band(g, bnot(cmp_lt0(q))), cmp_lt0(add(q, v, -1))): ok = True
            if not ok: raise Bad('%s: the number of words goes from %s to %s: the search for a large enough one may not end' % (ctx, ' or '.join(show(q) for q in cur[:1]), show(v)[:60]), e)
def holds(s, o, exp, care=TRUE, what='an element', whole=True):
    """the set o ends up with the elements exp, in an array of its own that is large enough"""
    b0, n0 = s.sets.get(o, (None, None))
    n = s.field(o, MXW, n0); b = s.field(o, TT, b0)
    if n is None or b is None: raise Bad(s.ctx + ': the set is left without a size or words')
    s.expect(s.member(b, n), exp, care, what=what)
    for g, v in ite_cases(b):
        inr = bor(*[band(h, cmp_lt0(add(IX, w, -1))) for h, w in ite_cases(n)])
        if isc(v) or v is NULL: z = const(0)
        else: z = s.size.get(v)
        if z is None: raise Unk(s.ctx + ': size of the array')
        if s.breaks(band(s.ax, care, g, inr, bnot(cmp_lt0(add(IX, z, -1))))): raise Bad('%s: %s words are announced for an array of %s' % (s.ctx, show(n)[:60], show(z)[:60]), s.written[-1][1] if s.written else None)
    freed(s, o, b)
def freed(s, o, b):
    for e in s.F.events:
        if e.kind != 'call' or 'delete' not in e.name: continue
        ge = band(*[x for _, x in s.v.levels(e)])
        for h, p in ite_cases(s.S(e.args[0])):
            for g, v in ite_cases(b):
                if p is v and v is not NULL and s.breaks(band(s.ax, ge, h, g)): raise Bad('%s: the words are released but still used' % s.ctx, e)
def kept(s, o):
    """o is not changed"""
    b, n = s.sets[o]
    for bb, e in s.written:
        if bb is b: raise Bad('%s: the other set changes' % s.ctx, e)
    for e in s.F.stores():
        for _, v in ite_cases(s.S(e.ptr)):
            if v is o or v.op == 'adr' and v.a[0] is o: raise Bad('%s: the other set changes' % s.ctx, e)

@rule('C22')
def gnset(r):
    TG = 'C22'
    def ctor(nm, exp, ctx, others=(), pre=lambda F: TRUE, arg=0, objs=()):
        def go():
            F = k(r, nm)
            me = F.A(arg)
            s = Sets(F, {F.A(j): gset(F.A(j)) for j in others}, pre(F), ctx, objs=[me] + [F.A(j) for j in others])
            s.sets = dict(s.sets)
            holds(s, me, exp(F))
            for j in others: kept(s, F.A(j))
        r.ob(TG, ctx, go)
    ctor('k_gn_new', lambda F: FALSE, 'a new set is empty')
    ctor('k_gn_copy', lambda F: isin(F.A(1)), 'a copy has the same elements', (1,))
    ctor('k_gn_lbub', lambda F: band(bnot(cmp_lt0(add(X, F.A(1), -1))), bnot(cmp_lt0(add(F.A(2), X, -1)))), 'the set of an interval', pre=lambda F: bnot(cmp_lt0(F.A(1))))
    def meth(nm, exp, ctx, others=(), pre=lambda F: TRUE, fn=None):
        def go():
            F = fn() if fn else k(r, nm)
            me = F.A(0)
            s = Sets(F, {F.A(j): gset(F.A(j)) for j in (0,) + tuple(others)}, pre(F), ctx)
            holds(s, me, exp(F)); grown(s, ctx)
            for j in others: kept(s, F.A(j))
        r.ob(TG, ctx, go)
    nn = lambda F: bnot(cmp_lt0(F.A(1)))
    me = lambda F: isin(F.A(0)); ot = lambda F: isin(F.A(1)); is1 = lambda F: cmp_eq0(add(X, F.A(1), -1))
    meth('k_gn_clear', lambda F: FALSE, 'clear')
    meth(None, lambda F: bor(me(F), is1(F)), 'insert', pre=nn, fn=lambda: r.fn('cont', r'^GNSet::insert\('))
    meth('k_gn_remove', lambda F: band(me(F), bnot(is1(F))), 'remove')
    meth('k_gn_complement', lambda F: band(bnot(me(F)), cmp_lt0(add(IX, fld(F.A(0), MXW), -1))), 'complement')
    meth('k_gn_union', lambda F: bor(me(F), ot(F)), 'unionWith', (1,))
    meth('k_gn_inter', lambda F: band(me(F), ot(F)), 'interWith', (1,))
    meth('k_gn_diff', lambda F: band(me(F), bnot(ot(F))), 'diffWith', (1,))
    meth('k_gn_assign', lambda F: ot(F), 'assignment', (1,))
    meth('k_gn_removeAbove', lambda F: band(me(F), bnot(cmp_lt0(add(F.A(1), X, -1)))), 'removeAbove', pre=nn)
    meth('k_gn_removeBelow', lambda F: band(me(F), bnot(cmp_lt0(add(X, F.A(1), -1)))), 'removeBelow')

@rule('C22')
def natset(r):
    TG = 'C22'
    N = const(3)
    def op(nm, exp, ctx, others=(), pre=lambda F: TRUE, arg=0, old=True, inr=lambda F: TRUE):
        def go():
            F = k(r, nm)
            me = F.A(arg)
            s = Sets(F, {F.A(j): (F.A(j), N) for j in ((arg,) + tuple(others))}, pre(F), ctx)
            if not old: s.ax = s.ax
            got = s.cont[me]
            if not old and s.breaks(band(s.ax, cmp_lt0(add(IX, N, -1)), bxor(bsubst(got, lambda a: TRUE if a is mk('in', me) else None), bsubst(got, lambda a: FALSE if a is mk('in', me) else None)))):
                raise Bad(ctx + ': some word is left uninitialised')
            s.expect(band(got, cmp_lt0(add(IX, N, -1))), exp(F), cmp_lt0(add(IX, N, -1)))
            for j in others: kept(s, F.A(j))
        r.ob(TG, 'fixed-size set: ' + ctx, go)
    me = lambda F: isin(F.A(0)); ot = lambda F: isin(F.A(1)); is1 = lambda F: cmp_eq0(add(X, F.A(1), -1))
    fits = lambda F: band(bnot(cmp_lt0(F.A(1))), cmp_lt0(add(F.A(1), const(-192))))
    op('k_nat_new', lambda F: FALSE, 'a new set is empty', old=False)
    op('k_nat_copy', ot, 'copy', (1,), old=False)
    op('k_nat_move', ot, 'move', (1,), old=False)
    op('k_nat_range', lambda F: band(bnot(cmp_lt0(add(X, F.A(1), -1))), bnot(cmp_lt0(add(F.A(2), X, -1)))), 'the set of an interval', old=False, pre=lambda F: band(bnot(cmp_lt0(F.A(1))), cmp_lt0(add(F.A(2), const(-191)))))
    op('k_nat_list', lambda F: atom(mk('inlist')), 'the set of a list', old=False)
    op('k_nat_assign', ot, 'assignment', (1,))
    op('k_nat_clear', lambda F: FALSE, 'clear')
    op('k_nat_insert', lambda F: bor(me(F), is1(F)), 'insert', pre=fits)
    op('k_nat_complement', lambda F: bnot(me(F)), 'complement')
    op('k_nat_union', lambda F: bor(me(F), ot(F)), 'unionWith', (1,))
    op('k_nat_inter', lambda F: band(me(F), ot(F)), 'interWith', (1,))

# --------------------------------------------------- reading the words ---
def contains_(r, F, sets, ctx, pre):
    me, p = F.A(0), F.A(1)
    s = Sets(F, sets, pre, ctx)
    P6, P63 = mk('ashr', p, const(6)), bit_and(64, p, const(63))
    ix = {P6, mk('lshr', p, const(6))}
    care = band(cmp_eq0(add(IX, P6, -1)), cmp_eq0(add(B, P63, -1)))
    s.reads = []
    def single(t):
        """t has no bit other than P63: its value there"""
        if t.op == 'and' and any(x is const(1) for x in t.a):
            y = [x for x in t.a if x is not const(1)]
            if len(y) == 1 and y[0].op == 'lshr':
                if y[0].a[1] is not P63: raise (Unk if opaque(y[0].a[1]) or not shifted(y[0].a[1]) else Bad)('%s: bit %s of the word' % (ctx, show(y[0].a[1])))
                return s.bitf(y[0].a[0], ix)
        f = s.bitf(t, ix)
        if s.breaks(band(s.ax, f, bnot(care), cmp_eq0(add(IX, P6, -1)))): raise Bad('%s: looks at %s' % (ctx, show(t)[:100]))
        return f
    def at_(a):
        if a.op == 'eq0' and a.a[0].op in ('and', 'lshr', 'or', 'at', 'xor'): return bnot(single(a.a[0]))
        if a.op == 'lt0' and a.a[0].op == 'lin':
            c, d = lin_of(a.a[0])
            if c == -1 and len(d) == 1 and list(d)[0].op in ('and', 'or', 'lshr', 'at') and not shifted(list(d)[0]): return bnot(single(list(d)[0]))
        if a.op == 'bit' and a.a[0].op == 'lshr' and a.a[1] == 0:
            if a.a[0].a[1] is not P63: raise Unk('bit')
            return s.bitf(a.a[0].a[0], ix)
        return None
    got = FALSE
    for e in F.g.rets:
        if e.gate is FALSE: continue
        v = s.v.SB(e.value) if isinstance(e.value, Bdd) else s.v.SB(F.g.tobool(e.value))
        got = bor(got, band(s.v.SB(e.gate), v))
    got = bsubst(got, at_)
    for b, _, rg in s.reads:
        dep = bxor(constrain(got, isin(me)), constrain(got, bnot(isin(me))))
        if s.breaks(band(pre, bnot(cmp_lt0(s.size[b])), care, dep, bnot(cmp_lt0(add(IX, s.size[b], -1))))): raise Bad('%s: a word past the end is read' % ctx, F.g.rets[0])
        if s.breaks(band(s.ax, care, got, bnot(cmp_lt0(add(IX, s.size[b], -1))))): raise Bad('%s: a word past the end is read' % ctx, F.g.rets[0])
    bad = band(s.ax, care, bxor(got, isin(me)))
    if s.breaks(bad): raise Bad('%s: says yes if [%s]' % (ctx, bshow(got)[:200]), F.g.rets[0])

class Quant:
    """a yes/no answer about the words, as a formula over 'every word between lo and hi satisfies c'"""
    def __init__(self, F, sets, ctx, pre=TRUE):
        self.F = F; self.ctx = ctx; self.sets = sets
        self.s = Sets(F, sets, pre, ctx); self.v = self.s.v
        self.q = {}          # atom -> (entry, lo, hi, cond at IX)
        if any(e.kind == 'call' and re.search(r'\b(memcmp|bcmp)\b', e.name or '') for e in F.events): raise Unk(ctx + ': block comparison')
        got = FALSE
        for e in F.g.rets:
            if e.gate is FALSE: continue
            val_ = e.value if isinstance(e.value, Bdd) else F.g.tobool(e.value)
            got = bor(got, band(e.gate, val_))
        self.got = bsubst(got, self.atom)
    def all_(self, t, lo, hi, c):
        a = mk('all', t.h, lo, hi, c); A = atom(a)
        if a not in self.q:
            self.q[a] = (TRUE, lo, hi, c, t)
            self.q[a] = (bsubst(self.F.g.loops[t.h].entry, self.atom), lo, hi, c, t)
        return A
    def natural(self, t):
        """(exit, phi, lo, hi, step) of the end of a counting loop"""
        L = self.F.g.loops[t.h]
        for x in t.exits:
            eg = self.v.SB(x[2])
            for phi, (ins, init) in L.phis.items():
                if not isinstance(phi, T) or phi.info.get('back') is None or phi.info.get('w') == 'ptr': continue
                d = add(phi.info['back'], phi, -1)
                if d is const(1) and x[0] == t.h:
                    try: return x, phi, self.S(init), self.bound(eg, phi), 1, FALSE
                    except Unk: pass
        hd = [x for x in t.exits if (x[0], x[1]) != (t.natural[0], t.natural[1])] if t.natural else []
        hd = hd if hd and all(x[0] == t.h and not any(y.op in ('at', 'ld') for a in atoms_of(self.v.SB(x[2])) for y in subterms(a)) for x in hd) else []
        if t.natural and t.phi is not None and t.kind in ('idx', 'vec') and (t.natural[0] == t.h or hd) or t.natural and getattr(t, 'mixed', False):
            lo, hi = self.S(t.lo), self.S(t.hi)
            eg = self.v.SB(t.natural[2])
            if t.step == 1: nat = bnot(cmp_lt0(add(t.phi, hi, -1))) if not t.eqtest else cmp_eq0(add(t.phi, hi, -1))
            else: nat = cmp_lt0(add(t.phi, hi, -1)) if not t.eqtest else cmp_eq0(add(t.phi, hi, -1))
            if hd: eg = constrain(eg, bnot(bor(*[self.v.SB(x[2]) for x in hd])))
            if not entails(nat, eg): raise Unk(self.ctx + ': end of the loop')
            return t.natural, t.phi, lo, hi, t.step, band(eg, bnot(nat))
        raise Unk(self.ctx + ': loop')
    def bound(self, eg, phi):
        ps = [a for a in atoms_of(eg) if occurs(a, phi)]; gs = [a for a in atoms_of(eg) if a not in ps]
        if not ps or len(gs) > 4: raise Unk('loop')
        cs = []
        def go(f, rest, cond):
            if rest and f not in (TRUE, FALSE):
                a = atom(rest[0]); go(constrain(f, a), rest[1:], band(cond, a)); go(constrain(f, bnot(a)), rest[1:], band(cond, bnot(a))); return
            xs = atoms_of(f)
            if len(xs) != 1 or xs[0].op != 'lt0' or any(y.op in ('at', 'ld') for y in subterms(xs[0])): raise Unk('loop')
            c, d = lin_of(xs[0].a[0]); m = d.get(phi)
            rest_ = mklin(c, {y: v for y, v in d.items() if y is not phi})
            if m == 1 and f is bnot(atom(xs[0])): cs.append((cond, mulc(rest_, -1)))
            elif m == -1 and f is atom(xs[0]): cs.append((cond, add(rest_, const(1))))
            else: raise Unk('loop')
        go(eg, gs, TRUE)
        return ite(cs)
    def S(self, t): return self.v.S(t)
    def info(self, t):
        """phi, lo, hi (as a range of IX), substitution of the loop's variables, early condition"""
        nat, phi, lo, hi, step, mix = self.natural(t)
        L = self.F.g.loops[t.h]
        early = [x for x in t.exits if (x[0], x[1]) != (nat[0], nat[1])]
        if step == 1: a, b, it = lo, hi, IX
        else:
            # iterations: phi = lo - k ; k from 0
            last = add(hi, const(1)) if t.eqtest else hi
            a, b, it = last, add(lo, const(1)), IX
        subs = [(phi, IX)]
        cnt = add(IX, lo, -1) if step == 1 else add(lo, IX, -1)       # iterations done before
        for q, (ins, init) in L.phis.items():
            if not isinstance(q, T) or q is phi: continue
            bk = q.info.get('back')
            if bk is None: continue
            sb = self.S(bk)
            if sb.op == 'adr' and sb.a[0] is q and sb.a[1] == 'f8':
                subs.append((('ptr', q), (self.S(init), cnt)))
        return nat, phi, step, a, b, subs, early, mix
    def over_ix(self, f, subs, shift=None):
        """condition on the current word(s), index written IX"""
        g = self.F.g
        for x, y in subs:
            if isinstance(x, tuple):
                q = x[1]; base, cnt = y
                def m(t):
                    if t.op == 'fld' and t.a[0] is q and t.a[1] == 'f0': return mk('at', base, cnt)
                    return None
                f = tmap(g, f, m)
            else: f = subst(g, f, x, y)
        return f
    def cond(self, t, f, subs):
        """normalise the condition so that the words are at index IX; returns (c, shift)"""
        f = self.over_ix(f, subs)
        f = bsubst(f, xeq)
        ix = set()
        for a in atoms_of(f):
            for y in subterms(a):
                if y.op == 'at': ix.add(y.a[1])
                elif y.op == 'fld' and re.match(r'f\d+$', y.a[1]) and y.a[0] in [b for b, _ in self.sets.values()]: ix.add(const(int(y.a[1][1:]) // 8))
        if len(ix) != 1: raise Unk(self.ctx + ': words compared')
        i = ix.pop()
        c, d = lin_of(i)
        if d.get(IX) == 1:
            sh = mklin(c, {y: v for y, v in d.items() if y is not IX})      # word index = IX + sh
            return subst(self.F.g, f, IX, add(IX, sh, -1)), 1, sh
        if d.get(IX) == -1:
            sh = mklin(c, {y: v for y, v in d.items() if y is not IX})      # word index = sh - IX
            return subst(self.F.g, f, IX, add(sh, IX, -1)), -1, sh
        raise Unk(self.ctx + ': words compared')
    def every(self, t, f):
        """'f holds of every word the loop looks at' (f over the loop's variables)"""
        nat, phi, step, a, b, subs, early, mix = self.info(t)
        c, sg, sh = self.cond(t, f, subs)
        if sg == 1: lo, hi = lift2(add, a, sh), lift2(add, b, sh)
        else: lo, hi = lift2(lambda u, w: add(add(w, u, -1), const(1)), b, sh), lift2(lambda u, w: add(add(w, u, -1), const(1)), a, sh)
        return self.all_(t, lo, hi, c)
    def atom(self, a):
        g = self.F.g
        if a.op == 'exit':
            h = a.a[1]; t = self.v.trav.get(h)
            if t is None: raise Unk(self.ctx + ': loop')
            nat, phi, step, x, y, subs, early, mix = self.info(t)
            if mix is not FALSE or len(early) > 1: raise Unk(self.ctx + ': ways out of the loop')
            if (a.a[2], a.a[3]) == (nat[0], nat[1]):
                if not early: return TRUE
                return self.every(t, bnot(constrain(self.v.SB(early[0][2]), bnot(self.v.SB(nat[2])))))
            e = [z for z in early if (z[0], z[1]) == (a.a[2], a.a[3])]
            if not e: raise Unk(self.ctx + ': exit')
            return bnot(self.every(t, bnot(constrain(self.v.SB(e[0][2]), bnot(self.v.SB(nat[2]))))))
        if a.op == 'phi': return self.flag(a)
        if a.op == 'eq0':
            for e in self.F.events:
                if e.kind == 'call' and e.name in ('memcmp', 'bcmp') and isinstance(e.ret, T) and self.S(e.ret) is self.S(a.a[0]): return self.blockeq(e)
        if a.op in ('lt0', 'eq0'):
            for y in subterms(self.S(a.a[0])):
                if y.op == 'phi': 
                    z = self.counter(a, y)
                    if z is not None: return z
        r = self.v.satom(a)
        return r
    def blockeq(self, e):
        """two blocks of words compared at once"""
        n = gvg.exactdiv(self.S(e.args[2]), const(8)) or (const(self.S(e.args[2]).a[0] // 8) if isc(self.S(e.args[2])) and self.S(e.args[2]).a[0] % 8 == 0 else None)
        if n is None or self.v.under(e): raise Unk(self.ctx + ': comparison of blocks')
        w = []
        for p in e.args[:2]:
            xs = self.s.arrays(p)
            if len(xs) != 1 or xs[0][1] is None or xs[0][2] is not const(0): raise Unk(self.ctx + ': blocks')
            w.append(at(xs[0][1], IX))
        c = cmp_eq(*w); a = mk('all', 'block%d' % e.idx, const(0), n, c)
        self.q[a] = (bsubst(e.gate, self.atom), const(0), n, c, None)
        return atom(a)
    def flag(self, p):
        for h, L in self.F.g.loops.items():
            for q in L.phis:
                if q is p or isinstance(q, Bdd) and q.v < (1 << 59) and core._atoms[q.v] is p:
                    t = self.v.trav[h]; ins, init = L.phis[q]
                    if isinstance(q, Bdd): back = getattr(L, 'back_b', {}).get(q.id); ini = init
                    else: back = self.F.g.tobool(q.info['back']); ini = self.F.g.tobool(init)
                    if back is None: raise Unk(self.ctx + ': flag')
                    if ini not in (TRUE, FALSE):
                        # x = x || c(word), x = x && c(word): any starting value
                        ini = bsubst(ini, self.atom); back = self.SBk(back, p); me_ = atom(p)
                        nat, phi, step, x, y, subs, early, mix = self.info(t)
                        if early or mix is not FALSE: raise Unk(self.ctx + ': flag')
                        cont = self.v.SB(t.cont) if t.cont is not None else TRUE
                        up, dn = constrain(back, me_), constrain(back, bnot(me_))
                        if up is TRUE: return bor(ini, bnot(self.every(t, bnot(constrain(dn, cont)))))
                        if dn is FALSE: return band(ini, self.every(t, constrain(up, cont)))
                        raise Unk(self.ctx + ': flag')
                    back = self.SBk(back, p); me_ = atom(p)
                    nat, phi, step, x, y, subs, early, mix = self.info(t)
                    if early: raise Unk(self.ctx + ': flag')
                    f1 = constrain(back, me_ if ini is TRUE else bnot(me_)); f2 = constrain(back, bnot(me_) if ini is TRUE else me_)
                    if not same(mix, FALSE) and not implies(mix, bnot(me_) if ini is TRUE else me_): raise Unk(self.ctx + ': flag')
                    stuck = FALSE if ini is TRUE else TRUE
                    if f2 is not stuck and not implies(bnot(me_) if ini is TRUE else me_, bor(mix, self.v.SB(nat[2]))):
                        raise Bad('%s: the answer of one word is overwritten by that of the next' % self.ctx, None)
                    nx = constrain(f1, self.v.SB(t.cont)) if t.cont is not None else f1
                    A = self.every(t, nx if ini is TRUE else bnot(nx))
                    return A if ini is TRUE else bnot(A)
        raise Unk(self.ctx + ': flag')
    def SBk(self, f, p):
        """strip, the flag itself kept"""
        def m(a):
            if a is p: return atom(a)
            return self.v.satom(a)
        return bsubst(f, m)
    def counter(self, a, y):
        """an atom about a counter after its loop"""
        for h, L in self.F.g.loops.items():
            if y not in [q for q in L.phis if isinstance(q, T)]: continue
            t = self.v.trav[h]
            back = self.S(y.info['back']); ins, init = L.phis[y]; init = self.S(init)
            nat, phi, step, x, z, subs, early, mix = self.info(t)
            A = bsubst(atom(a), self.v.satom)
            if y is phi:
                # left because of the end test or because of a word
                if early: return None
                hi = self.S(t.hi)
                natc = cmp_eq0(add(phi, hi, -1)) if t.eqtest else (cmp_lt0(add(phi, hi, -1)) if step < 0 else bnot(cmp_lt0(add(phi, hi, -1))))
                if mix is FALSE: raise Unk(self.ctx + ': counter')
                dom = bnot(cmp_lt0(add(phi, hi, -1))) if t.eqtest and step < 0 else TRUE
                if sat(band(dom, bxor(A, natc))) is None: return self.every(t, bnot(constrain(mix, bnot(natc))))
                if sat(band(dom, bxor(A, bnot(natc)))) is None: return bnot(self.every(t, bnot(constrain(mix, bnot(natc)))))
                raise Bad('%s: the answer depends on where the comparison stopped (%s)' % (self.ctx, bshow(A)[:80]), None)
            if init is not const(0): raise Unk(self.ctx + ': counter')
            if early: mix = bor(mix, *[self.v.SB(q[2]) for q in early])
            inc = add(back, y, -1)
            if inc.op == 'at' or inc.op == 'trunc' and wordy(inc.a[1]): raise Bad('%s: adds the words up (%s): the sum can be 0 although a word is not' % (self.ctx, show(inc)[:60]), self.F.g.rets[0])
            if inc.op != 'b2i': raise Unk(self.ctx + ': counter')
            zero = cmp_eq0(y)
            if mix is not FALSE and not implied(band(mix, bnot(cmp_lt0(y))), bnot(zero)): raise Unk(self.ctx + ': counter')
            dom = bnot(cmp_lt0(y))
            n = add(z, x, -1) if z.op != 'ite' and x.op != 'ite' else None
            if sat(band(dom, bxor(A, zero))) is None: return self.every(t, bnot(inc.a[0]))
            if sat(band(dom, bxor(A, bnot(zero)))) is None: return bnot(self.every(t, bnot(inc.a[0])))
            if n is not None and mix is FALSE:
                fullc = cmp_eq0(add(y, n, -1)); dom = band(dom, bnot(cmp_lt0(add(n, y, -1))))
                if sat(band(dom, bxor(A, fullc))) is None: return self.every(t, inc.a[0])
                if sat(band(dom, bxor(A, bnot(fullc)))) is None: return bnot(self.every(t, inc.a[0]))
            raise Bad('%s: the answer is %s of the number of words' % (self.ctx, bshow(A)[:80]), None)
        return None
    def inr(self, lo, hi): return self.s.stay(lo, hi, TRUE, IX)
    def decide(self, spec):
        """got <=> for every IX: spec(IX)"""
        ax = self.s.ax
        facts = TRUE
        wit = FALSE
        for a, (ent, lo, hi, c, t) in self.q.items():
            facts = band(facts, bimp(band(atom(a), ent), bimp(self.inr(lo, hi), c)))
            for b, n in self.sets.values():
                for at_ in atoms_of(c):
                    for y in subterms(at_):
                        if y.op == 'at' and y.a[0] is b and self.s.breaks(band(ax, ent, self.inr(lo, hi), bxor(constrain(c, atom(at_)), constrain(c, bnot(atom(at_)))), bnot(cmp_lt0(add(IX, n, -1))))): raise Bad('%s: a word past the end is read' % self.ctx)
        bad = band(ax, self.got, facts, bnot(spec))
        if self.s.breaks(bad): raise Bad('%s: the answer can be yes although some word tells otherwise' % self.ctx, self.F.g.rets[0])
        # a word that stops the search must be a reason for no
        for a, (ent, lo, hi, c, t) in self.q.items():
            if sat(band(ax, ent, self.inr(lo, hi), bnot(c), spec)) is None: wit = bor(wit, band(ent, bnot(atom(a))))
        # what is left: a no without a reason (conditions on sizes may themselves be reasons only through words)
        if self.s.breaks(band(ax, bnot(self.got), bnot(wit))): raise Bad('%s: the answer can be no although every word tells otherwise' % self.ctx, self.F.g.rets[0])
def lift2(f, a, b): return ite([(band(g, h), f(x, y)) for g, x in ite_cases(a) for h, y in ite_cases(b) if band(g, h) is not FALSE])
def xeq(a):
    if a.op == 'eq0' and a.a[0].op == 'xor' and len(a.a[0].a) == 2: return cmp_eq(*a.a[0].a)
    return None
def tmap(g, t, m):
    """t with subterms replaced where m says so"""
    if isinstance(t, Bdd):
        def at_(a):
            o = a.op
            if o == 'eq0': return cmp_eq0(tmap(g, a.a[0], m))
            if o == 'lt0': return cmp_lt0(tmap(g, a.a[0], m))
            return None
        return bsubst(t, at_)
    r = m(t)
    if r is not None: return r
    if t.op == 'lin':
        r = const(t.a[0])
        for x, c in t.a[1]: r = add(r, mulc(tmap(g, x, m), c))
        return r
    if t.op in ('at', 'fld', 'xor', 'and', 'or', 'not'): return mk(t.op, *[tmap(g, x, m) if isinstance(x, T) else x for x in t.a])
    return t
def word(b, n):
    """the word at IX, 0 past the end"""
    i = cmp_lt0(add(IX, n, -1))
    return ite([(i, at(b, IX)), (bnot(i), const(0))])
def eqwords(x, y): return bor(*[band(g, h, cmp_eq(v, w)) for g, v in ite_cases(x) for h, w in ite_cases(y)])

def reading(r, TG, pre_, sets_of, names):
    def C():
        F = k(r, names['contains'])
        contains_(r, F, {F.A(0): sets_of(F.A(0))}, pre_ + 'contains', bnot(cmp_lt0(F.A(1))) if pre_ == '' else band(bnot(cmp_lt0(F.A(1))), cmp_lt0(add(F.A(1), const(-192)))))
    r.ob(TG, pre_ + 'contains tells whether the element is there', C)
    def E():
        F = k(r, names['empty'])
        q = Quant(F, {F.A(0): sets_of(F.A(0))}, pre_ + 'empty')
        q.decide(cmp_eq(word(*sets_of(F.A(0))), const(0)) if False else eqwords(word(*sets_of(F.A(0))), const(0)))
    r.ob(TG, pre_ + 'empty tells whether there is no element', E)
    def Z():
        F = k(r, names['size']); me = F.A(0); b, n = sets_of(me)
        s = Sets(F, {me: (b, n)}, TRUE, pre_ + 'size')
        v = ite([(s.v.SB(e.gate), s.S(e.value)) for e in F.g.rets if e.gate is not FALSE])
        if v.op != 'phi': raise Unk('number of elements')
        for h, L in F.g.loops.items():
            if v not in L.phis: continue
            t = s.v.trav[h]
            q = Quant.__new__(Quant); q.F = F; q.s = s; q.v = s.v; q.ctx = s.ctx
            nat, phi, step, lo, hi, subs, early, mix = q.info(t)
            if early or mix is not FALSE: raise Bad(s.ctx + ': the count may stop early', F.g.rets[0])
            val(s.S(L.phis[v][1]), const(0), s.ctx + ': the count starts', F.g.rets[0])
            inc = add(s.S(v.info['back']), v, -1)
            if inc.op != 'ctpop': raise (Unk if opaque(inc) else Bad)('%s: adds %s' % (s.ctx, show(inc)[:80]))
            w = q.over_ix(inc.a[0], subs)
            if not (w.op == 'at' and w.a[0] is b): raise Unk('word counted')
            c, d = lin_of(w.a[1])
            if d != {IX: 1}: raise Unk('word counted')
            if lo is not const(-c) or add(hi, const(c)) is not n: raise (Unk if opaque(lo) or opaque(hi) else Bad)('%s: counts the words from %s to %s' % (s.ctx, show(lo), show(hi)), F.g.rets[0])
            return
        raise Unk('number of elements')
    r.ob(TG, pre_ + 'size counts the elements', Z)
def equal(r, TG, nm, sets_of, ctx, neg=False):
    def E():
        F = k(r, nm)
        a, b = F.A(0), F.A(1)
        q = Quant(F, {a: sets_of(a), b: sets_of(b)}, ctx)
        if neg: q.got = bnot(q.got)
        q.decide(eqwords(word(*sets_of(a)), word(*sets_of(b))))
    r.ob(TG, ctx, E)

@rule('C22')
def setreads(r):
    TG = 'C22'
    reading(r, TG, '', gset, dict(contains='k_gn_contains', empty='k_gn_empty', size='k_gn_size'))
    nat = lambda o: (o, const(3))
    reading(r, TG, 'fixed-size set: ', nat, dict(contains='k_nat_contains', empty='k_nat_empty', size='k_nat_size'))
    equal(r, TG, 'k_gnset_eq', gset, 'equality compares the elements')
    equal(r, TG, 'k_gnset_ne', gset, 'inequality compares the elements', True)
    equal(r, TG, 'k_natset_eq', nat, 'fixed-size set: equality compares the elements')

def moved(r, TG, nm, fresh):
    def go():
        F = k(r, nm); me, o = F.A(0), F.A(1); ctx = 'move' if fresh else 'move assignment'
        s = Sets(F, {o: gset(o)} if fresh else {me: gset(me), o: gset(o)}, TRUE, ctx, objs=[me, o])
        holds(s, me, isin(o))
        b, n = s.field(o, TT, fld(o, TT)), s.field(o, MXW, fld(o, MXW)); mb = s.field(me, TT, None)
        for g, v in ite_cases(b):
            for h, w in ite_cases(mb):
                if v is w and v is not NULL and s.breaks(band(g, h, s.ax)): raise Bad('%s: both sets own the same words' % ctx, F.stores()[-1])
        z = bor(*[band(g, h, cmp_lt0(add(const(0), w, -1))) for g, v in ite_cases(b) if v is NULL or isc(v) for h, w in ite_cases(n)])
        if s.breaks(band(s.ax, z)): raise Bad('%s: the set moved from has no words but says it has some' % ctx, F.stores()[-1])
    r.ob(TG, 'move' if fresh else 'move assignment', go)
def bycalls(r, TG, nm, ctx):
    """a set built by inserting the elements one after the other"""
    def go():
        F = k(r, nm); me = F.A(0)
        cs = [e for e in F.events if e.kind == 'call' and e.name == 'GNSet::insert']
        if not cs: raise Unk(ctx + ': does not insert')
        c = F.one(cs, 'inserting'); ts = F.under(c)
        if len(ts) != 1: raise (Bad(ctx + ': only one element is inserted', c) if not ts else Unk('nest'))
        t = ts[0]
        chk(F.gate(c), TRUE, ctx + ': inserting an element', c)
        s = Sets(F, {}, TRUE, ctx, objs=[me])
        x = s.S(c.args[1])
        if t.kind == 'ptr':
            if t.early: raise Bad(ctx + ': may stop early', c)
            if x is not t.elem: raise (Unk if opaque(x) else Bad)('%s: inserts %s' % (ctx, show(x)[:60]), c)
            if s.S(t.lo) is not F.A(1): raise Bad('%s: starts after the first element' % ctx, c)
        else:
            L = F.g.loops[t.h]
            if x.op != 'phi' or x not in L.phis: raise (Unk(ctx + ': element inserted') if opaque(x) and x.op != 'lin' else Bad('%s: inserts %s' % (ctx, show(x)[:60]), c))
            if len(t.exits) != 1: raise Bad(ctx + ': may stop early', c)
            if nm == 'k_gn_range':
                fr, to = fld(F.A(1), 'f0'), fld(F.A(1), 'Range._to')
                ini, st, eg = s.S(L.phis[x][1]), add(s.S(x.info['back']), x, -1), s.v.SB(t.exits[0][2])
                for up, cnd in ((True, cmp_lt0(add(fr, to, -1))), (False, cmp_lt0(add(to, fr, -1)))):
                    for g, i in ite_cases(ini):
                        cr = band(cnd, g)
                        if sat(cr) is None or opaque(i): continue
                        what = '%s: %s range' % (ctx, 'an increasing' if up else 'a decreasing')
                        if t.exits[0][0] == t.h and sat(band(cr, bnot(subst(F.g, eg, x, i)))) is None: raise Bad(what + ' gives no element', c)
                        if i is fr:
                            for h, d in ite_cases(st):
                                if isc(d) and sat(band(cr, h)) is not None and d is not const(1 if up else -1): raise Bad('%s is gone through by steps of %s' % (what, show(d)), c)
                            if t.exits[0][0] == t.h and sat(band(cr, subst(F.g, eg, x, i))) is not None and sat(band(cr, bnot(subst(F.g, eg, x, i)))) is None: raise Bad(what + ' loses its start', c)
        for b in [b for b in s.cont if alloc_of(F, b) is not None]:
            al = alloc_of(F, b); g = band(*[y for _, y in s.v.levels(al)])
            if s.breaks(band(s.ax, g, s.cont[b], cmp_lt0(add(IX, s.size[b], -1)))): raise Bad('%s: a word of the new array is not set to 0' % ctx, al)
            ms = [e for e in F.stores() if s.S(e.ptr) is me and not s.v.under(e)]
            z = s.size[b]
            def ok(v): return v.op == 'fldv' and v.a[0] is me or any(s.S(e.value) is v for e in ms)
            if not all(ok(v) or any(v in [w for _, w in ite_cases(s.S(e.value))] for e in ms) for _, v in ite_cases(z)): raise (Unk if opaque(z) else Bad)('%s: an array of %s words' % (ctx, show(z)[:80]), al)
        if not any(alloc_of(F, b) is not None for b in s.cont): raise Unk(ctx + ': words')
    r.ob(TG, ctx, go)
def operator(r, TG, nm, exp, ctx):
    def go():
        F = k(r, nm); a, b = F.A(0), F.A(1)
        if F.g.f['args'][0].get('sret') is None: raise Unk('result')
        o = F.v.S(F.g.args[0])
        s = Sets(F, {a: gset(a), b: gset(b)}, TRUE, ctx, objs=[o, a, b])
        holds(s, o, exp(isin(a), isin(b)))
        kept(s, a); kept(s, b)
    r.ob(TG, ctx, go)
@rule('C22')
def sets2(r):
    TG = 'C22'
    moved(r, TG, 'k_gn_move', True); moved(r, TG, 'k_gn_massign', False)
    bycalls(r, TG, 'k_gn_list', 'the set of a list'); bycalls(r, TG, 'k_gn_range', 'the set of a range')
    operator(r, TG, 'k_gnset_or', bor, 'operator |'); operator(r, TG, 'k_gnset_and', band, 'operator &')
    operator(r, TG, 'k_gnset_sub', lambda x, y: band(x, bnot(y)), 'operator -')
    def conv():
        F = k(r, 'k_gnset_from'); o, me = F.A(0), F.A(1); ctx = 'conversion'
        s = Sets(F, {o: (o, const(3))}, TRUE, ctx, objs=[me])
        holds(s, me, isin(o))
    r.ob(TG, 'a growable set made from a fixed-size one has the same elements', conv)
    for nm, f in (('or', bor), ('and', band)):
        def natop(nm=nm, f=f):
            F = k(r, 'k_nat_' + nm); me, a, b = F.A(0), F.A(1), F.A(2); ctx = 'fixed-size set: operator'
            s = Sets(F, {me: (me, const(3)), a: (a, const(3)), b: (b, const(3))}, TRUE, ctx)
            c = cmp_lt0(add(IX, const(-3)))
            s.expect(band(s.content(me), c), f(isin(a), isin(b)), c)
        r.ob(TG, 'fixed-size set: operator %s' % {'or': '|', 'and': '&'}[nm], natop)
