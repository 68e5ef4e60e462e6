"""Version-free view of a gated value graph, loop classification and quantifier
summaries.  Rules are written against this view."""
import re
from core import *
from gvg import Graph, Program, psplit, shortname, pathkey
import core, gvg

class Unk(Exception):
    """the construct is outside what the rule understands: no verdict"""
class Bad(Exception):
    """the obligation is contradicted"""
    def __init__(self, msg, ev=None): super().__init__(msg); self.ev = ev; self.msg = msg

ROLE = {}      # (last path element, offset) -> role

def role(off, path):
    if not path:
        return 'f%d' % off
    k = (path[-1], off)
    r = ROLE.get(k)
    if r: return r
    if path[-1][0].endswith('_List_node') or '_List_node.' in path[-1][0]: return 'val'
    if off == 0: return 'f0'
    nm = core.FIELDS.get(path[-1])
    s = re.sub(r'\.\d+$', '', path[-1][0]).split('.')[-1].split('::')[-1]
    own = core.FOFF.get(path[-1], off)
    return '%s.%s%s' % (s, nm if nm else '%d' % path[-1][1], '' if own == off else '@%d' % (off - own))

LEARNED = ('bound', 'bbound', 'layer', 'exact', 'id', 'nbpar', 'nbkid', 'par0', 'kid0', 'lbl0', 'labels', 'root', 'ddexact', 'ddopt')
def learn(P):
    """which field is what, read off the public accessors"""
    miss = []
    for nm in LEARNED:
        fs = P.find(r'^k_acc_%s\(' % nm)
        if not fs: miss.append(nm); continue
        g = P.graph(fs[0])
        v = None
        for e in g.events:
            if e.kind == 'ret' and e.args: v = e.args[0]
        lds = []
        def look(t):
            if isinstance(t, Bdd):
                for a in atoms_of(t): look(a)
            elif isinstance(t, T):
                if t.op == 'ld': lds.append(t)
                for x in t.a:
                    if isinstance(x, (T, Bdd)): look(x)
        if isinstance(v, T) and v.op == 'ptr' and nm == 'labels':
            r, off, idx, path = psplit(v); ROLE[(path[-1], off)] = 'labels'; continue
        look(v)
        lds = [l for l in lds if psplit(l.a[0])[3]]
        if nm == 'ddopt':
            lds = [l for l in lds if psplit(l.a[0])[0] is g.args[0]]; nm = 'sink'
        if nm in ('par0', 'kid0', 'lbl0'):
            lds = [l for l in lds if psplit(l.a[0])[0] is g.args[0]]
        if not lds: miss.append(nm); continue
        r, off, idx, path = psplit(lds[0].a[0])
        lg = {'nbpar': 'parents.size', 'nbkid': 'kids.size', 'par0': 'parents', 'kid0': 'kids', 'lbl0': 'labels.data'}.get(nm, nm)
        ROLE.setdefault((path[-1], off), lg)
    SIZE_OF.update({'parents.size': 'parents', 'kids.size': 'kids'})
    return miss

def lifted(o, nm, *args):
    """the term with conditional arguments moved outside"""
    k = [i for i, x in enumerate(args) if x.op == 'ite' and len(x.a) <= 6]
    n = 1
    for i in k: n *= len(args[i].a)
    if not k or n > 24: return mk(o, nm, *args)
    def go(i, g, acc):
        if g is FALSE: return []
        if i == len(args): return [(g, mk(o, nm, *acc))]
        if i not in k: return go(i + 1, g, acc + [args[i]])
        r = []
        for h, v in args[i].a: r += go(i + 1, band(g, h), acc + [v])
        return r
    return ite(go(0, TRUE, []))
class Trav:
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return '<%s over %s%s>' % (self.kind, show(self.cont_obj) if isinstance(self.cont_obj, T) else self.cont_obj, '' if self.full else ' with early exits')

class View:
    def __init__(self, g):
        self.g = g
        self._s = {}; self._sb = {}
        self.trav = {}
        self._flags = {}
        for h in sorted(g.loops, key=lambda x: len(g.chain(x))):
            if h in g.gate: self.classify(h)
        self._s = {}; self._sb = {}

    # ------------------------------------------------------- stripping ----
    def S(self, t):
        if isinstance(t, Bdd): return self.SB(t)
        if not isinstance(t, T): return t
        r = self._s.get(t)
        if r is None:
            r = self._strip(t); self._s[t] = r
        return r
    def addr(self, p):
        """stripped address"""
        r, off, idx, path = psplit(p)
        b = self.S(r)
        if not idx:
            if off == 0: return b
            return mk('adr', b, role(off, path))
        if off or path: b = mk('adr', b, role(off, path))
        return mk('adx', b, tuple((self.S(x), c) for x, c in idx))
    def _strip(self, t):
        o, a = t.op, t.a
        if o == 'ld':
            r, off, idx, path = psplit(a[0])
            if not idx:
                b = self.S(r); rl = role(off, path)
                if b.op == 'ite' and len(b.a) <= 12: return ite([(g, self.elem(mk('fld', v, rl))) for g, v in b.a])
                return self.elem(mk('fld', b, rl))
            b = self.S(r)
            sz = gvg._tyw.get((t.info or {}).get('ty'), 0)
            if off and not path:          # base[i + k]
                if sz and off % sz == 0 and all(c % sz == 0 for _, c in idx) and (len(idx) > 1 or idx[0][1] % off or True):
                    e = const(off // sz)
                    for x, c in idx: e = add(e, mulc(self.S(x), c // sz))
                    return self.atl(b, e)
                if len(idx) == 1:
                    x, c = idx[0]
                    if off % c == 0: return self.elem(mk('at', b, add(self.S(x), const(off // c))))
            if off or path: b = mk('adr', b, role(off, path))
            sz = gvg._tyw.get((t.info or {}).get('ty'), 0)
            if len(idx) == 1:
                x, c = idx[0]
                if not path and sz and c != sz and c % sz == 0: return self.atl(b, mulc(self.S(x), c // sz))
                return self.atl(b, self.S(x))
            if not path and not off and sz and all(c % sz == 0 for _, c in idx):
                e = const(0)
                for x, c in idx: e = add(e, mulc(self.S(x), c // sz))
                return self.atl(b, e)
            return mk('atx', b, tuple((self.S(x), c) for x, c in idx))
        if o == 'ptr': return self.addr(t)
        if o == 'lin': 
            r = const(a[0])
            for x, c in a[1]: r = add(r, mulc(self.S(x), c))
            return r
        if o == 'flin':
            d = {}
            for x, c in a[1]:
                y = self.S(x); d[y] = d.get(y, 0) + c
            return mkflin(a[0], d)
        if o == 'ite': return ite([(self.SB(g), self.S(v)) for g, v in a])
        if o == 'b2i': return mk_b2i(self.SB(a[0]))
        if o == 'rcall':
            args = [self.S(x) for x in a[1:] if x.op != 'ver']
            return self.elem(mk('rcall', a[0], *args))
        if o == 'pcall':
            x = self.expand(t)
            if x is not None: return mk_b2i(x) if isinstance(x, Bdd) else x
            return lifted('pcall', a[0], *[self.S(x) for x in a[1:]])
        if o in ('and', 'or', 'xor'):
            xs = [self.S(x) for x in a]
            return {'and': bit_and, 'or': bit_or, 'xor': lambda w, *z: z[0]}[o](64, *xs) if o != 'xor' else mk('xor', *sorted(xs, key=lambda z: z.id))
        if o == 'sdiv':
            x, y = self.S(a[0]), self.S(a[1])
            return gvg.exactdiv(x, y) or mk(o, x, y)
        if o == 'phi':
            for L in self.trav.values():
                if L.elem_phi is t: return L.elem
            return t
        if o in ('call', 'arg', 'alloca', 'c', 'fc', 'undef', 'global', 'fn', 'exit'): return t
        return mk(o, *[self.S(x) if isinstance(x, (T, Bdd)) else x for x in a])
    def atl(self, b, i):
        bs = b.a if b.op == 'ite' else ((TRUE, b),); js = i.a if i.op == 'ite' else ((TRUE, i),)
        if len(bs) * len(js) == 1 or len(bs) * len(js) > 24: return self.elem(mk('at', b, i))
        return ite([(band(g, h), self.elem(mk('at', x, y))) for g, x in bs for h, y in js if band(g, h) is not FALSE])
    def elem(self, t):
        for L in self.trav.values():
            if L.raw_elem is not None and t is L.raw_elem: return L.elem
        return t
    def SB(self, f):
        r = self._sb.get(f.id)
        if r is None:
            r = bsubst(f, self.satom); self._sb[f.id] = r
        return r
    def satom(self, t):
        o = t.op
        if o == 'eq0':
            n = self.listempty(t.a[0])
            if n is not None: return n
            n = self.lookedup(t.a[0])
            if n is not None: return n
            x = self.S(t.a[0])
            if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 2:      # ids identify nodes
                (a, ca), (b, cb) = x.a[1]
                if ca == -cb and abs(ca) == 1 and a.op == 'fld' and b.op == 'fld' and a.a[1] == 'id' == b.a[1]:
                    return cmp_eq(a.a[0], b.a[0])
            return cmp_eq0(x)
        if o == 'lt0': return cmp_lt0(self.S(t.a[0]))
        if o == 'peq':
            n = self.listempty(add(t.a[0], t.a[1], -1)) if t.a[0].op != 'ptr' and t.a[1].op != 'ptr' else None
            if n is None:
                for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if y.op == 'ld' and pstrip(y.a[0]) is pstrip(x): n = self.listempty(mk('lin', 0, ((x, 1), (y, -1))))
            if n is not None: return n
            return cmp_eq(self.S(t.a[0]), self.S(t.a[1]))
        if o == 'better': return self.g.better(self.S(t.a[0]), self.S(t.a[1]))
        if o == 'feq':
            x, y = sorted((self.S(t.a[0]), self.S(t.a[1])), key=lambda z: z.id)
            return TRUE if x is y else atom(mk('feq', x, y))
        if o == 'bit':
            x = self.S(t.a[0])
            return atom(mk('bit', x, t.a[1]))
        if o == 'exit': return self.exit_some(t)
        if o == 'phi':
            q = self.flag(t)
            if q is not None: return q
            return None
        if o == 'pcall':
            x = self.expand(t)
            if isinstance(x, Bdd): return x
        s = self.S(t)
        if s.op == 'ite': return bor(*[band(g, atom(v)) for g, v in s.a])
        return atom(s) if s is not t else None
    def lookedup(self, t):
        """a local that was null before a table lookup is null after it iff nothing was found"""
        if t.op != 'ld' or psplit(t.a[0])[0].op != 'alloca': return None
        r, off, idx, _ = psplit(t.a[0])
        if off or idx: return None
        es = [e for e in self.g.events if e.kind == 'call' and e.args and any(psplit(x)[0] is r for x in e.raw if isinstance(x, T) and x.op in ('ptr', 'alloca'))]
        if len(es) != 1 or es[0].name != 'LHashtable::getLoc' or es[0].gate is not TRUE or psplit(es[0].raw[-1])[0] is not r: return None
        if self.g.load(es[0].mem, es[0].raw[-1], 8, 'ptr') is not NULL: return None
        return bnot(atom(mk('exv', self.S(es[0].ret), (1,))))
    def listempty(self, t):
        """a list header that points to itself: the list is empty"""
        if t.op != 'lin' or t.a[0] or len(t.a[1]) != 2: return None
        (a, ca), (b, cb) = t.a[1]
        if ca != -cb or abs(ca) != 1: return None
        for x, y in ((a, b), (b, a)):
            if y.op == 'ld' and pstrip(y.a[0]) is pstrip(x) and x.op in ('ptr', 'arg', 'alloca'):
                r, off, idx, path = psplit(x)
                if idx: return None
                ty = ' '.join(p[0] for p in psplit(y.a[0])[3]) + ' '.join(p[0] for p in path)
                if '_List' not in ty and 'list' not in ty and r.op != 'arg': return None
                return cmp_lt0(add(mk('fld', self.S(r), '_List_node_header._M_size' + ('@%d' % off if off else '')), const(-1)))
        return None
    def expand(self, t):
        """inside DD<...>, the pure virtual queries are those of DD<...> itself"""
        m = re.match(r'AbstractDD::(hasLocal|hasDominance|cost|eqSink|eq|initialBest|initialWorst)$', t.a[0])
        if not m or not self.g.dem.startswith('DD<'): return None
        if re.search(r'>::%s\(' % m.group(1), self.g.dem): return None
        cls = self.g.dem[:self.g.dem.index('>::', self.g.dem.rindex('std::equal_to<') if 'std::equal_to<' in self.g.dem else 0) + 1]
        while not self.g.dem[len(cls):].startswith('::'): cls += self.g.dem[len(cls)]
        fs = self.g.p.find('^' + re.escape(cls) + '::' + m.group(1) + r'\(')
        if len(fs) != 1: return None
        G = self.g.p.graph(fs[0], self.g.sense); V = View(G)
        rs = [e for e in G.rets if e.gate is not FALSE]
        if len(rs) != 1 or rs[0].gate is not TRUE or rs[0].value is None or G.loops: return None
        v = rs[0].value
        v = V.SB(v) if isinstance(v, Bdd) else V.S(v)
        for k, fa in enumerate(G.args):
            if k + 1 >= len(t.a): return None
            fr = mk('fld', fa, 'f0') if fa.op == 'alloca' else fa
            ac = self.S(t.a[k + 1])
            if isinstance(v, Bdd): v = bsubst(v, lambda z: subst_atom(self.g, z, fr, ac))
            else: v = subst(self.g, v, fr, ac)
        return v

    # -------------------------------------------------- loop structure ----
    def classify(self, h):
        g = self.g; L = g.loops[h]
        hdr_exits = [(p, s) for p, s in L.all_exits if g.blocks[s]['ins'][-1]['op'] != 'unreachable']
        T_ = Trav(kind='?', cont_obj=None, cont_role=None, elem=mk('elem', g.f['name'], h), raw_elem=None, elem_phi=None, full=True, natural=None, h=h, reverse=False, lo=None, hi=None, phi=None, early=[])
        cands = []
        for p, s in hdr_exits:
            # only exits of this loop's own blocks: gate in this loop's context
            eg = g.edge.get((p, s), FALSE)
            if g.inner(p) != h:
                left = [x for x in g.chain(g.inner(p)) if x not in g.chain(h)]
                eg = g.exit_gate(g.loops[left[-1]], p, s, eg) if left else eg
            if band(eg, L.entry) is FALSE: continue      # cannot be taken in any run that enters the loop
            cands.append((p, s, eg))
        self.trav[h] = T_
        T_.exits = cands
        nat = None
        for p, s, eg in cands:
            for k in ('ring', 'idx', 'list', 'iter', 'drain', 'ptr', 'count'):
                m = getattr(self, 'try_' + k)(h, L, T_, p, s, eg)
                if m: nat = (p, s, eg); break
            if nat: break
        T_.natural = nat
        T_.early = [c for c in cands if c is not nat and (c[0], c[1]) != (nat[0], nat[1])] if nat else list(cands)
        # an exit edge may combine the end test and another reason to leave
        T_.full = bool(nat) and not T_.early and T_.kind != '?' and not getattr(T_, 'mixed', False)
        T_.cont = bnot(bor(*[eg for p, s, eg in cands if p == h or (nat and (p, s, eg) == nat)])) if cands else TRUE
        # `if (stop) break;` at the head of the body: the decision was taken in the iteration before
        T_.stops = {}
        for p, s, eg in T_.early:
            c = constrain(eg, T_.cont)
            at_ = atoms_of(c)
            if len(at_) != 1: continue
            a = atom(at_[0])
            if c is not a and c is not bnot(a): continue
            for q, (ins, init) in L.phis.items():
                if isinstance(q, Bdd): back = getattr(L, 'back_b', {}).get(q.id); hit = a is q or bnot(a) is q
                else: back = q.info.get('back'); hit = q is at_[0]; back = g.tobool(back) if back is not None and hit else None
                if not hit or back is None: continue
                if a is not q and isinstance(q, Bdd): back = bnot(back)
                T_.stops[(p, s)] = back if c is a else bnot(back)
                T_.cont = band(T_.cont, bnot(c)); break
        return T_
    def early_conds(self, t):
        """the conditions, within an iteration, under which it is the last one"""
        return [self.SB(constrain(t.stops.get((p, s), eg), t.cont)) for p, s, eg in t.early]
    def latch_gate(self, L): return bor(*[x for x, _ in L.latch])

    def end_test(self, eg):
        """atoms of the exit gate"""
        return atoms_of(eg)
    def single(self, eg, want):
        """the exit gate restricted to the end test: eg must be true whenever `want` is
        (given the rest), returns 'only' or 'mixed' or None"""
        if eg is want: return 'only'
        if implies(eg, want):
            # conditions before the test (e.g. flag && i != n): the natural exit happens only if the rest lets it
            return 'only'
        if implies(want, eg): return 'mixed'
        return None
    def try_ring(self, h, L, t, p, s, eg):
        for phi, (ins, init) in L.phis.items():
            if not isinstance(phi, T): continue
            back = phi.info.get('back')
            if back is None: continue
            si, sb = self.S(init), self.S(back)
            if si.op != 'fld' or not si.a[1].endswith('._exit'): continue
            q = si.a[0]; pre = si.a[1][:-5]
            if sb is not bit_and(64, add(phi, const(1)), mk('fld', q, pre + '_mask')): continue
            # as many steps as there are elements, or up to the entry position
            want = None
            for n, (_, ni) in L.phis.items():
                if isinstance(n, T) and n.info.get('back') is not None and add(n.info['back'], n, -1) is const(-1) and self.S(ni) is mk('fld', q, pre + '_cnt'):
                    for a in atoms_of(eg):
                        if a.op == 'eq0' and a.a[0] is n or a.op == 'lt0' and a.a[0] is add(n, const(-1)): want = atom(a)
            for a in atoms_of(eg):
                if a.op == 'eq0':
                    x = add(phi, self.S(a.a[0]), -1); y = add(phi, self.S(a.a[0]), 1)
                    if mk('fld', q, pre + '_enter') in (x, y): want = atom(a)
            if want is None: continue
            m = self.single(eg, want)
            if not m: continue
            t.mixed = m == 'mixed'; t.phi = phi; t.kind = 'ring'; t.cont_obj = q; t.cont_role = 'queue'
            t.raw_elem = mk('fld', mk('at', mk('fld', q, pre + '_data'), phi), 'f0')
            return True
        return False
    def try_idx(self, h, L, t, p, s, eg):
        for phi, (ins, init) in L.phis.items():
            if not isinstance(phi, T): continue
            back = phi.info.get('back')
            if back is None: continue
            d = add(back, phi, -1)
            if not (isc(d) and abs(d.a[0]) >= 1): continue
            step = d.a[0]
            if phi.info.get('w') == 'ptr': continue
            for a in atoms_of(eg):
                if a.op not in ('eq0', 'lt0'): continue
                c, dd = lin_of(a.a[0])
                if phi not in dd or abs(dd[phi]) != 1: continue
                # atom: a.a[0] == 0 or < 0 ; solve for bound
                k = dd[phi]
                rest = mklin(c, {x: v for x, v in dd.items() if x is not phi})
                A = atom(a)
                if a.op == 'eq0':
                    hi = mulc(rest, -1) if k == 1 else rest       # phi == hi
                    want = A
                else:
                    # k*phi + rest < 0
                    if step > 0 and k == 1: hi = mulc(rest, -1); want = bnot(A)      # phi < hi continues
                    elif step > 0 and k == -1: hi = add(rest, const(1)); want = A    # -phi+rest<0 : phi>rest exits -> hi = rest+1
                    elif step < 0 and k == 1: hi = mulc(rest, -1); want = A           # phi < hi exits
                    else: hi = add(rest, const(1)); want = bnot(A)                    # -phi + rest < 0 continues: phi > rest
                m = self.single(eg, want)
                if not m: continue
                if not self.invariant(hi, L): 
                    pass
                t.mixed = m == 'mixed'
                t.phi = phi; t.step = step
                t.kind = 'idx'; t.lo = init; t.hi = hi; t.eqtest = a.op == 'eq0'
                t.reverse = step < 0
                # over which container?
                sh = self.S(hi)
                if abs(step) == 1:
                    if step == 1 and isc(init) and init.a[0] == 0 and sh.op == 'fld' and sh.a[1] in SIZE_OF:
                        t.kind = 'vec'; t.cont_obj = sh.a[0]; t.cont_role = SIZE_OF[sh.a[1]]
                        t.raw_elem = mk('at', mk('fld', sh.a[0], t.cont_role), phi)
                    elif step == -1:
                        si = self.S(init)
                        if isc(sh) and sh.a[0] == 0:
                            c0, d0 = lin_of(si)
                            if len(d0) == 1:
                                (x, kk), = d0.items()
                                if kk == 1 and x.op == 'fld' and x.a[1] in SIZE_OF and c0 in (0, -1):
                                    ok = (c0 == -1 and a.op == 'lt0') or (c0 == 0 and a.op in ('eq0', 'lt0') )
                                    if c0 == -1 and a.op == 'lt0':
                                        t.kind = 'vec'; t.cont_obj = x.a[0]; t.cont_role = SIZE_OF[x.a[1]]
                                        t.raw_elem = mk('at', mk('fld', x.a[0], t.cont_role), phi)
                return True
        return False
    def invariant(self, t, L): return True
    def try_count(self, h, L, t, p, s, eg): return False
    def try_ptr(self, h, L, t, p, s, eg):
        for phi, (ins, init) in L.phis.items():
            if not isinstance(phi, T): continue
            back = phi.info.get('back')
            if back is None: continue
            r, off, idx, path = psplit(back)
            if r is phi and not idx and off:
                for a in atoms_of(eg):
                    if a.op not in ('peq', 'eq0'): continue
                    if a.op == 'peq': other = a.a[0] if psplit(a.a[1])[0] is phi else a.a[1] if psplit(a.a[0])[0] is phi else None
                    else:
                        c, dd = lin_of(a.a[0])
                        if phi not in dd: continue
                        other = mulc(mklin(c, {x: v for x, v in dd.items() if x is not phi}), -dd[phi])
                    if other is None: continue
                    m = self.single(eg, atom(a))
                    if not m: continue
                    t.mixed = m == 'mixed'; t.kind = 'ptr'; t.phi = phi; t.lo = init; t.hi = other; t.step = off
                    si, sh = self.S(init), self.S(other)
                    # std::vector: begin is the first pointer, end the second
                    if off > 0 and si.op == 'fld' and sh.op == 'fld' and si.a[0] is sh.a[0] and si.a[1] == 'f0' and si is not sh:
                        t.kind = 'stdvec'; t.cont_obj = si.a[0]; t.cont_role = 'stdvec'
                    t.raw_elem = mk('fld', phi, 'f0')
                    return True
        return False
    def try_list(self, h, L, t, p, s, eg):
        for phi, (ins, init) in L.phis.items():
            if not isinstance(phi, T): continue
            back = phi.info.get('back')
            if back is None: continue
            back = self.S(back)
            if back.op != 'fld' or back.a[0] is not phi: continue
            nx = back.a[1]
            si = self.S(init)
            for a in atoms_of(eg):
                if a.op == 'eq0' and a.a[0] is phi:
                    m = self.single(eg, atom(a))
                    if not m: continue
                    t.mixed = m == 'mixed'; t.kind = 'chain'; t.phi = phi; t.cont_obj = si; t.cont_role = nx; t.elem_phi = phi; t.next = nx
                    return True
                if a.op in ('peq', 'eq0'):
                    if a.op == 'peq': other = a.a[0] if a.a[1] is phi else a.a[1] if a.a[0] is phi else None
                    else:
                        c, dd = lin_of(a.a[0])
                        if phi not in dd or c: continue
                        other = mulc(mklin(c, {x: v for x, v in dd.items() if x is not phi}), -dd[phi])
                    if other is None: continue
                    m = self.single(eg, atom(a))
                    if not m: continue
                    so = self.S(other)
                    # circular list: starts at header.next, ends at the header
                    t.mixed = m == 'mixed'; t.phi = phi; t.next = nx
                    t.kind = 'list' if si is mk('fld', so, nx) or (si.op == 'fld' and si.a[0] is so) or (si.info and si.info.get('ev') is not None and getattr(si.info['ev'], 'sret', None) is other) else 'sublist'
                    t.cont_obj = so; t.cont_role = 'list'
                    t.raw_elem = None
                    for e in self.g.events:
                        pass
                    t.raw_elem = mk('fld', phi, 'val')
                    t.start = si
                    return True
        return False
    def try_iter(self, h, L, t, p, s, eg):
        g = self.g
        for a in atoms_of(eg):
            if a.op != 'rcall' or not re.search(r'operator(!=|==)$', a.a[0]): continue
            neg = a.a[0].endswith('!=')
            want = bnot(atom(a)) if neg else atom(a)
            m = self.single(eg, want)
            if not m: continue
            it = a.a[1]; en = a.a[2] if len(a.a) > 3 else None
            cls = a.a[0].rsplit('::', 1)[0]
            if it.op != 'alloca': continue
            # how was the iterator made?
            src = self.made_by(L.entry_mem, it)
            en_src = self.made_by_any(en, g, h) if en is not None else None
            incs = [e for e in g.events if e.kind == 'call' and e.loop is not None and e.block in L.blocks and e.name.startswith(cls) and e.meth in ('operator++',) and e.raw and (e.raw[0] is it or (e.sret is not None and len(e.raw) > 1 and e.raw[1] is it))]
            t.mixed = m == 'mixed'; t.kind = 'iter'; t.it = it; t.cls = cls; t.incs = incs
            t.src = src; t.end_src = en_src
            t.cont_role = cls
            if src is not None and src.meth in ('begin', 'cbegin'): t.cont_obj = self.S(src.args[0]); t.begin = src.meth
            elif src is not None: t.kind = 'subiter'; t.cont_obj = self.S(src.args[0])
            else: t.kind = 'subiter'; t.cont_obj = mk('unk')
            t.raw_elem = mk('rcall', cls + '::operator*', it)
            return True
        return False
    def made_by(self, mem, al):
        """the call whose result is in the local `al` at this point"""
        g = self.g
        v = g.load(mem, al, 8, 'ptr')
        if v.info and 'ev' in v.info: return v.info['ev']
        if v.op == 'exv': v = v.a[0]
        if v.info and 'ev' in v.info: return v.info['ev']
        if v.op in ('rcall', 'call', 'pcall') and v.info: return v.info.get('ev')
        return None
    def made_by_any(self, al, g, h):
        for e in g.events:
            if e.kind == 'call' and e.sret is al: return e
            if e.kind == 'copy' and e.args[0] is al:
                r = self.made_by(e.mem, e.args[1])
                if r: return r
        return None
    def try_drain(self, h, L, t, p, s, eg):
        g = self.g
        for a in atoms_of(eg):
            b = a
            if a.op == 'lt0' or a.op == 'eq0':
                c, dd = lin_of(a.a[0])
                if len(dd) == 1:
                    (x, k), = dd.items()
                    if x.op == 'rcall' and x.a[0].endswith('::size') and k == 1 and ((a.op == 'lt0' and c <= -1) or (a.op == 'eq0' and c == 0)):
                        if x.a[0].split('::')[0] == 'std': pass
                        m = self.single(eg, atom(a))
                        if m:
                            t.short = a.op == 'lt0' and c < -1; t.mixed = m == 'mixed' or t.short; t.kind = 'drain'; t.cont_obj = self.S(x.a[1]); t.cont_role = x.a[0].rsplit('::', 1)[0]; return True
            if a.op == 'rcall' and a.a[0].endswith('::empty'):
                m = self.single(eg, atom(a))
                if m:
                    t.mixed = m == 'mixed'; t.kind = 'drain'; t.cont_obj = self.S(a.a[1]); t.cont_role = a.a[0].rsplit('::', 1)[0]; return True
        return False

    # ----------------------------------------------- quantifier summaries --
    def exit_some(self, t):
        """exit atom of loop L along (p,s): some iteration left that way"""
        fn, h, p, s = t.a
        L = self.trav.get(h)
        if L is None or L.kind == '?': return None
        for (pp, ss, eg) in L.exits:
            if (pp, ss) == (p, s):
                cond = self.SB(constrain(eg, L.cont))
                return atom(mk('some', L.cont_obj if isinstance(L.cont_obj, T) else mk('unk'), L.cont_role or '', self.abst(cond, L)))
        return None
    def abst(self, f, L):
        """a condition on the current element, the loop's identity removed"""
        v = mk('x')
        def sub(t):
            return subst_atom(self.g, t, L.elem, v)
        return bsubst(f, sub)
    def flag(self, phi):
        """a boolean loop phi seen after the loop, as a quantified condition"""
        g = self.g
        L = None
        for h, lp in g.loops.items():
            for q in lp.phis:
                if q is phi or (isinstance(q, Bdd) and q.v < (1 << 59) and core._atoms[q.v] is phi): L = lp; key = q
        if L is None: return None
        t = self.trav.get(L.h)
        if t is None or t.kind == '?': return None
        if phi in self._flags: return self._flags[phi]
        self._flags[phi] = None
        ins, init = L.phis[key]
        if isinstance(key, Bdd):
            back = getattr(L, 'back_b', {}).get(key.id); init_b = init
        else:
            back = key.info.get('back')
            back = g.tobool(back) if back is not None else None
            init_b = g.tobool(init)
        if back is None or init_b not in (TRUE, FALSE): return None
        me = atom(phi)
        lat = self.latch_gate(L)
        if lat is not FALSE and constrain(back, lat) is init_b: self._flags[phi] = init_b; return init_b
        early = [eg for p, s, eg in t.exits if (p, s, eg) != t.natural]
        stop_when = bor(*early) if early else FALSE
        nat = t.natural[2]
        # value after one iteration, from the start value
        f1 = constrain(back, band(me if init_b is TRUE else bnot(me), t.cont))
        other = bnot(me) if init_b is TRUE else me
        # once changed it must stay changed: either the loop stops or back keeps it
        stays = implies(other, bor(*[eg for p, s, eg in t.exits])) or implies(band(other, lat), back if init_b is FALSE else bnot(back))
        if not stays:
            # overwritten in every iteration that does not skip: the condition of the last one
            bc = constrain(back, band(t.cont, lat)) if lat is not FALSE else back
            v1, v0 = constrain(bc, me), constrain(bc, bnot(me))
            if t.full and not early and not any(x is phi or x.op in ('phi', 'exit') for x in atoms_of(v1) + atoms_of(v0)):
                r = atom(mk('last', t.cont_obj if isinstance(t.cont_obj, T) else mk('unk'), t.cont_role or '', self.abst(self.SB(v1), t), self.abst(self.SB(v0), t)))
                self._flags[phi] = r
                return r
            return None
        if any(x is phi for x in atoms_of(f1)): return None
        cond = f1 if init_b is FALSE else bnot(f1)
        cond = self.abst(self.SB(cond), t)
        # leaving early for another reason than the flag makes the summary partial
        for eg in early:
            if not implies(band(eg, t.cont if False else TRUE), other) : return None
        q = atom(mk('some', t.cont_obj if isinstance(t.cont_obj, T) else mk('unk'), t.cont_role or '', cond))
        r = q if init_b is FALSE else bnot(q)
        self._flags[phi] = r
        return r

    # ----------------------------------------------------------- events ----
    def levels(self, ev):
        """[(Trav or None, stripped gate given that the iteration runs)] outermost first"""
        g = self.g; out = []
        for h, gate in g.nest(ev):
            t = self.trav.get(h) if h is not None else None
            gg = constrain(gate, t.cont) if t is not None else gate
            out.append((t, self.SB(gg)))
        return out
    def gate(self, ev):
        """stripped gate within the innermost loop"""
        return self.levels(ev)[-1][1]
    def rawgate(self, ev):
        t = self.trav.get(ev.loop) if ev.loop is not None else None
        return constrain(ev.gate, t.cont) if t is not None else ev.gate
    def under(self, ev):
        return [t for t, _ in self.levels(ev) if t is not None]

def subst_atom(g, t, a, b):
    o = t.op
    f = lambda x: subst(g, x, a, b)
    if o == 'eq0': return cmp_eq0(f(t.a[0]))
    if o == 'lt0': return cmp_lt0(f(t.a[0]))
    if o == 'peq': return cmp_eq(f(t.a[0]), f(t.a[1]))
    if o == 'better': return g.better(f(t.a[0]), f(t.a[1]))
    n = f(t)
    return atom(n)
_sub = {}
def subst(g, t, a, b):
    if t is a: return b
    if isinstance(t, Bdd): return bsubst(t, lambda x: subst_atom(g, x, a, b))
    if not isinstance(t, T): return t
    if t.op in ('c', 'fc', 'arg', 'alloca', 'undef', 'phi', 'call'): return t
    k = (t, a, b)
    r = _sub.get(k)
    if r is None:
        o = t.op
        if o == 'lin':
            r = const(t.a[0])
            for x, c in t.a[1]: r = add(r, mulc(subst(g, x, a, b), c))
        elif o == 'flin':
            d = {}
            for x, c in t.a[1]:
                y = subst(g, x, a, b); d[y] = d.get(y, 0) + c
            r = mkflin(t.a[0], d)
        elif o == 'ite': r = ite([(subst(g, x, a, b), subst(g, y, a, b)) for x, y in t.a])
        elif o == 'b2i': r = mk_b2i(subst(g, t.a[0], a, b))
        else:
            def m(x):
                if isinstance(x, (T, Bdd)): return subst(g, x, a, b)
                if isinstance(x, tuple): return tuple(m(y) for y in x)
                return x
            r = mk(o, *[m(x) for x in t.a])
        _sub[k] = r
    return r

SIZE_OF = {}     # role of a size field -> role of the data field
VALROLE = {}

def occurs(t, x):
    seen = set(); st = [t]
    while st:
        y = st.pop()
        if y is x: return True
        if isinstance(y, Bdd):
            for a in atoms_of(y): st.append(a)
            continue
        if not isinstance(y, T) or y in seen: continue
        seen.add(y)
        for z in y.a:
            if isinstance(z, (T, Bdd)): st.append(z)
            elif isinstance(z, tuple):
                for w in z:
                    if isinstance(w, (T, Bdd)): st.append(w)
                    elif isinstance(w, tuple): st.extend(v for v in w if isinstance(v, (T, Bdd)))
    return False
def subterms(t):
    seen = set(); st = [t]; out = []
    while st:
        y = st.pop()
        if isinstance(y, Bdd):
            st.extend(atoms_of(y)); continue
        if not isinstance(y, T) or y in seen: continue
        seen.add(y); out.append(y)
        for z in y.a:
            if isinstance(z, (T, Bdd)): st.append(z)
            elif isinstance(z, tuple):
                for w in z:
                    if isinstance(w, (T, Bdd)): st.append(w)
                    elif isinstance(w, tuple): st.extend(v for v in w if isinstance(v, (T, Bdd)))
    return out

def loop_before(h, mem):
    """the loop with header h is over in memory state mem"""
    seen = set(); st = [mem]
    while st:
        m = st.pop()
        while m is not None and m.id not in seen:
            seen.add(m.id)
            if m.k == 'loop' and m.d['L'].h == h: return True
            if m.k == 'phi':
                for _, x in m.d['ins']: st.append(x)
                m = None; continue
            m = m.prev
    return False
def before(ev1, ev2):
    """the effect of ev1 is in the memory state ev2 sees (ev1 may have run before ev2 in the same iteration)"""
    tgt = ev1
    seen = set(); st = [ev2.mem]
    while st:
        m = st.pop()
        while m is not None and m.id not in seen:
            seen.add(m.id)
            if m.d.get('ev') is tgt: return True
            if m.k == 'loop':
                m = m.prev; continue
            if m.k == 'phi':
                for _, x in m.d['ins']: st.append(x)
                m = None; continue
            m = m.prev
    return False
