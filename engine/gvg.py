"""Builds the gated value graph of one function (see core.py)."""
import os, json, re
from core import *
import core

# ---------------------------------------------------------------- naming ----
_OPS = ['operator<=>', 'operator<<=', 'operator>>=', 'operator->*', 'operator<<', 'operator>>', 'operator->', 'operator<=', 'operator>=', 'operator<', 'operator>', 'operator()']
def _strip(s, o, c):
    out = []; d = 0
    for ch in s:
        if ch == o: d += 1
        elif ch == c: d -= 1
        elif d == 0: out.append(ch)
    return ''.join(out)
_sn = {}
def shortname(dem):
    r = _sn.get(dem)
    if r is not None: return r
    s = dem.replace('[abi:cxx11]', '').replace('(anonymous namespace)', 'anon')
    for i, o in enumerate(_OPS): s = s.replace(o, 'operator@%d@' % i)
    s = _strip(s, '<', '>'); s = _strip(s, '(', ')'); s = _strip(s, '{', '}')
    for i, o in enumerate(_OPS): s = s.replace('operator@%d@' % i, o)
    s = s.strip()
    if s.endswith(' const'): s = s[:-6]
    s = s.replace('operator new[]', 'operator_new[]').replace('operator new', 'operator_new').replace('operator delete', 'operator_delete').replace('operator bool', 'operator_bool')
    s = s.split(' ')[-1] if ' ' in s else s
    _sn[dem] = s
    return s
_pt = {}
def paramtypes(dem):
    r = _pt.get(dem)
    if r is not None: return r
    s = dem
    if s.endswith(' const'): s = s[:-6]
    r = []
    if s.endswith(')'):
        d = 0; i = len(s) - 1
        while i >= 0:
            if s[i] == ')': d += 1
            elif s[i] == '(':
                d -= 1
                if d == 0: break
            i -= 1
        body = s[i + 1:-1]; cur = ''; d = 0
        for ch in body:
            if ch in '<([{': d += 1
            elif ch in '>)]}': d -= 1
            if ch == ',' and d == 0: r.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): r.append(cur.strip())
    _pt[dem] = r
    return r
def isconst(dem): return dem.endswith(' const')
_SCAL = {'double', 'int', 'unsigned int', 'long', 'unsigned long', 'bool', 'short', 'unsigned short', 'unsigned long long', 'char'}
def deref_param(t):
    if t.startswith('handle_ptr<'):
        return t.endswith('>') or t.endswith('> const&') or t.endswith('> const') or t.endswith('>&&')
    if t.endswith(' const&') and (t[:-7] in _SCAL or t[:-7].endswith('*')): return True
    return False

PURE = {'isBetter', 'isBetterEQ', 'better', 'initialBest', 'initialWorst', 'hasLocal', 'hasDominance', 'eqSink', 'eq', 'dominates', 'cost', 'local', 'getLabels', 'primal', 'dual'}
VIRT = PURE | {'update', 'reset', 'duplicate', 'transition', 'merge', 'init', 'target', 'makeInitFrom', 'printNode', 'getLastId', 'makeNDAllocator'}
PUREFN = re.compile(r'^(UTarget|ULgf|UStc|UEqs|UDom|ULoc|std::equal_to::operator\(\)|std::hash::operator\(\)|UPred|UTerm|ULess|UFold)')
FRESH = {'operator_new', 'operator_new[]', 'Pool::allocate', 'alloca_dyn'}
NOEFFECT = re.compile(r'^(std::(__cxx11::)?basic_|std::.*ostream|std::operator<<|operator<<|operator_delete|__cxa|__clang_call|printf|puts|RuntimeMonitor::|std::set(w|precision)|std::ios|std::endl|ANode::inexactBelow)')

# -------------------------------------------------------------- program -----
def canon_layout():
    try: return json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'canon.json')))
    except OSError: return {}
def canon_names(c, t, moved):
    """private members may be renamed: same place, same type, new name -> the name the rules use.
    A class whose first member changed is noted: offset 0 then stands for something else"""
    ren = {}
    if not c: return ren
    old = {m[0] for m in c}; cur = {m[0] for m in t['members']}
    for a, b in zip(c, t['members']):
        if a[0] != b[0] and a[0] not in cur and b[0] not in old and a[1:3] == b[1:3]: ren[b[0]] = a[0]
    if c and t['members'] and ren.get(t['members'][0][0], t['members'][0][0]) != c[0][0]: moved.add(t['name'])
    return ren
def exactdiv(x, y):
    """a sum of multiples of a constant, divided by it (differences of addresses)"""
    if not isc(y) or y.a[0] <= 0 or x.op != 'lin': return None
    c, d = lin_of(x); n = y.a[0]
    if c % n or any(v % n for v in d.values()): return None
    return mklin(c // n, {k: v // n for k, v in d.items()})

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.fns = {f['name']: f for f in d['functions']}
        self.bydem = {}
        for f in d['functions']: self.bydem.setdefault(f['dem'], f)
        self.eff = d['effects']
        self.unsigned = set(); self.fieldname = {}
        canon = canon_layout(); self.moved = set()
        for t in d['types']:
            nm = t['name'].split('<')[0]
            ren = canon_names(canon.get(os.path.basename(t['file']) + ':' + t['name'].split('<')[0]) if '/src/' in t['file'] else None, t, self.moved)
            for m in t['members']:
                self.fieldname.setdefault((nm, m[1] // 8), ren.get(m[0], m[0]))
                if m[3].startswith('unsigned') or m[3] in ('size_t', 'bool', 'std::size_t') or m[3].startswith('uint'):
                    self.unsigned.add((nm, m[1] // 8, m[2]))
        self._eff = None
        self.cache = {}
        self._fo = {}
        for f in d['functions']:
            for b in f['blocks']:
                for i in b['ins']:
                    for st in i.get('steps', ()):
                        if st[0] == 'f': self._fo[(st[1], st[2])] = st[3]
        core.FOFF.update(self._fo)
        for (sn, k), off in self._fo.items():
            nm = re.sub(r'\.\d+$', '', sn.split('.', 1)[1] if '.' in sn else sn).split('<')[0]
            x = self.fieldname.get((nm, off)) or self.fieldname.get((nm.split('::')[-1], off))
            if x: core.FIELDS[(sn, k)] = x
    # transitive effects: name -> set of (root, path, ty)
    def effects(self):
        if self._eff is not None: return self._eff
        E = {n: set() for n in self.eff}
        for n, e in self.eff.items():
            for r, p, t in e['st']:
                if r.startswith('sret') : continue
                if not p and n.startswith('_ZN4Pool8allocate'): continue    # the pool's own tables are nobody else's
                E[n].add((r, tuple(p.split('/')[-3:]) if p else (), t))
        ch = True; it = 0
        while ch and it < 30:
            ch = False; it += 1
            for n, e in self.eff.items():
                cur = E[n]; before = len(cur)
                for tg, args in e['calls']:
                    for t in tg:
                        for (r, p, ty) in list(E.get(t, ())):
                            if r.startswith('arg:'):
                                i = int(r[4:])
                                if i >= len(args): continue
                                ar, ap = args[i]
                                if ar in ('alloca',) or ar.startswith('sret'): continue
                                np_ = ((tuple(ap.split('/')) if ap else ()) + p)[-3:]
                                cur.add((ar if ar.startswith('arg:') else 'mem', np_, ty))
                            else: cur.add((r, p, ty))
                if len(cur) != before: ch = True
        self._eff = E
        return E
    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.fns.values() if r.search(f['dem'])]
    def graph(self, f, sense=None):
        k = (f['name'], sense)
        if k not in self.cache: self.cache[k] = Graph(self, f, sense)
        return self.cache[k]

def suffix_compat(p, q):
    n = min(len(p), len(q))
    if n == 0: return False
    return p[-n:] == q[-n:]
def pathkey(path): return tuple('%s#%d' % x for x in path)
_tyw = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'ptr': 8, 'float': 4}

class M:
    n = 0
    __slots__ = ('k', 'prev', 'd', 'id')
    def __init__(self, k, prev, **d):
        self.k = k; self.prev = prev; self.d = d; M.n += 1; self.id = M.n

class Ev:
    """something the function does: a store, a call, a return"""
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self):
        return '%s %s(%s) if %s @%s loop %s' % (self.kind, getattr(self, 'name', ''), ', '.join(show(a) for a in self.args), bshow(self.gate), self.line(), self.loop)
    def line(self):
        l = self.loc
        return '%s:%d' % (l[0][0].split('/')[-1], l[0][1]) if l else '?'
    def where(self):
        """source position: innermost frame in the repository, and the call chain"""
        fr = [x for x in (self.loc or []) if '/src/' in x[0] or x[0].endswith(('.hpp', '.cpp'))]
        fr = [x for x in fr if '/usr/' not in x[0]] or fr
        return ' <- '.join('%s:%d (%s)' % (x[0].split('/')[-1], x[1], x[2]) for x in fr[:4])

class Loop: pass

class Graph:
    def __init__(self, prog, f, sense=None):
        self.p = prog; self.f = f; self.sense = sense; self.dem = f['dem']; self.name = shortname(f['dem'])
        self.blocks = {b['id']: b for b in f['blocks']}
        self.defs = {}
        for b in f['blocks']:
            for i in b['ins']: self.defs[i['id']] = (i, b['id'])
        self.loops = {}
        for l in f['loops']:
            L = Loop(); L.h = l['header']; L.parent = l['parent'] if l['parent'] >= 0 else None; L.blocks = set(l['blocks'])
            L.exits = []; L.phis = {}; L.entry = FALSE; L.latch = []; L.uid = None
            self.loops[L.h] = L
        self.succ = {}; self.pred = {b: [] for b in self.blocks}
        for b in f['blocks']:
            t = b['ins'][-1]; s = []
            if t['op'] == 'br': s = list(t['succ'])
            elif t['op'] == 'switch': s = [c[1] for c in t['cases']] + [t['def']]
            self.succ[b['id']] = s
            for x in dict.fromkeys(s): self.pred[x].append(b['id'])
        self.events = []; self.val = {}; self.gate = {}; self.mem_out = {}; self.edge = {}
        self.ncall = 0; self.rets = []
        self._ldm = {}
        self.run()

    # ---- control flow
    def rpo(self):
        seen = set(); out = []
        st = [(self.f['blocks'][0]['id'], iter(self.succ[self.f['blocks'][0]['id']]))]
        seen.add(st[0][0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else: out.append(b); st.pop()
        return out[::-1]
    def inner(self, b): return self.blocks[b].get('loop')
    def chain(self, h):
        r = []
        while h is not None: r.append(h); h = self.loops[h].parent
        return r
    def nest(self, ev):
        """[(loop or None, gate)] from the outermost context to the event's"""
        r = [(ev.loop, ev.gate)]
        h = ev.loop
        while h is not None:
            L = self.loops[h]
            r.append((L.parent, L.entry)); h = L.parent
        return r[::-1]

    def run(self):
        order = self.rpo(); self.order = order
        # a class passed by value arrives in storage of its own
        priv = {}; pts = paramtypes(self.dem); ofs = len(self.f['args']) - len(pts)
        for k, a in enumerate(self.f['args']):
            if a.get('sret'): priv[a['id']] = 'result'
            elif k >= ofs and pts[k - ofs].startswith('handle_ptr<') and pts[k - ofs].endswith('>') and a['ty'] == 'ptr': priv[a['id']] = 'arg%d' % k
        self.priv = priv
        self.args = []
        pos = {b: i for i, b in enumerate(order)}
        first = order[0]
        for a in self.f['args']:
            t = mk('arg', a['id'], a['name'])
            if a['id'] in priv: t = mk('alloca', a['id'], priv[a['id']], self.f['name'])
            self.val[a['id']] = t; self.args.append(t)
        self.gate[first] = TRUE
        m0 = M('init', None)
        for b in order:
            h = self.inner(b)
            isH = b in self.loops
            preds = [p for p in self.pred[b] if p in pos and (pos[p] < pos[b])]
            ins = []                                 # (edgegate in ctx of b's loop, mem, predblock)
            if b == first: mem = m0; g = TRUE
            else:
                ctx = self.loops[b].parent if isH else h
                for p in preds:
                    eg = self.edge_gate(p, b)
                    mo = self.mem_out[p]
                    # leave loops
                    ph = self.inner(p); pc = self.chain(ph)
                    tgt = ctx
                    if ph != tgt:
                        # outermost loop left
                        left = [x for x in pc if x not in self.chain(tgt)]
                        if left:
                            lo = self.loops[left[-1]]
                            eg = self.exit_gate(lo, p, b, eg)
                    if eg is not FALSE: ins.append((eg, mo, p))
                g = bor(*[x[0] for x in ins]) if ins else FALSE
                mem = self.merge_mem(b, ins)
            if isH:
                L = self.loops[b]; L.entry = g; L.entry_mem = mem
                L.entry_edges = ins
                mem = M('loop', mem, L=L)
                L.mem = mem
                g = TRUE
            self.gate[b] = g
            self.do_block(b, g, mem, ins, isH)
        # back edge values
        for L in self.loops.values():
            if L.h not in pos: continue
            lat = [p for p in self.pred[L.h] if p in L.blocks and p in self.gate]
            L.latch = [(self.edge_in(p, L.h), p) for p in lat]
            for t, (i, init) in L.phis.items():
                inc = dict((k, v) for k, v in i['inc'])
                es = []
                for g, p in L.latch:
                    x = self.opv(inc[p])
                    if isinstance(x, T) and x.op == 'b2i' and g is not FALSE: x = mk_b2i(constrain(x.a[0], g))
                    es.append((g, x))
                if isinstance(t, Bdd):
                    tot = bor(*[g for g, _ in es])
                    L.back_b = getattr(L, 'back_b', {}); L.back_b[t.id] = constrain(bor(*[band(g, v) for g, v in es]), tot)
                else:
                    t.info = t.info or {}
                    t.info.update(init=init, back=ite([(g, v if isinstance(v, T) else mk_b2i(v)) for g, v in es]), loop=L.h, graph=self)
        for L in self.loops.values():
            L.all_exits = [(p, s) for p in L.blocks for s in self.succ[p] if s not in L.blocks and p in self.gate]

    def edge_in(self, p, b):
        """gate of edge p->b in the context of loop containing p, seen from loop of b"""
        g = self.edge_gate(p, b)
        ph = self.inner(p); h = self.inner(b)
        if ph != h:
            left = [x for x in self.chain(ph) if x not in self.chain(h)]
            if left: g = self.exit_gate(self.loops[left[-1]], p, b, g)
        return g
    def edge_gate(self, p, b):
        return self.edge.get((p, b), FALSE)
    def exit_gate(self, L, p, b, eg):
        """gate, in the parent context, of leaving L along p->b"""
        for e in L.exits:
            if e['p'] == p and e['b'] == b: return e['g']
        alln = sorted({(x, s) for x in L.blocks for s in self.succ[x] if s not in L.blocks})
        # exits through a block that never returns do not count
        alln = [(x, s) for x, s in alln if self.blocks[s]['ins'][-1]['op'] != 'unreachable']
        if (p, b) not in alln: return FALSE
        # a loop with a single exit always leaves through it
        if len(alln) == 1: g = L.entry
        else:
            # natural exit (from the header) is "none of the others"
            nat = [e for e in alln if e[0] == L.h] or [alln[-1]]
            nat = nat[-1]
            oth = [e for e in alln if e != nat]
            A = lambda e: atom(mk('exit', self.f['name'], L.h, e[0], e[1]))
            if (p, b) == nat: g = band(L.entry, *[bnot(A(e)) for e in oth])
            else:
                k = oth.index((p, b))
                g = band(L.entry, A((p, b)), *[bnot(A(e)) for e in oth[:k]])
        L.exits.append({'p': p, 'b': b, 'inner': eg, 'g': g, 'loop_of_p': self.inner(p)})
        return g

    def merge_mem(self, b, ins):
        ms = {id(x[1]): x[1] for x in ins}
        if len(ms) == 1: return next(iter(ms.values()))
        if not ms: return M('init', None)
        return M('phi', None, ins=[(g, m) for g, m, _ in ins], b=b)

    # ---- operands
    def opv(self, o):
        k = o[0]
        if k == 'v':
            v = self.val.get(o[1])
            if v is None: return UNDEF
            return v
        if k == 'i':
            if o[1] == 1: return atomc(o[2] != '0')
            return const(int(o[2]))
        if k == 'd':
            try: return mk('fc', float(o[1]))
            except ValueError: return mk('fcs', o[1])
        if k == 'n': return NULL
        if k == 'u': return UNDEF
        if k == 'z': return mk('zero', o[1])
        if k == 'fn': return mk('fn', o[1])
        if k == 'g': return mk('global', o[1])
        if k == 'cgep': return self.gep(self.opv(o[1]), o[2])
        return mk('k', json.dumps(o))
    def ival(self, o):
        v = self.opv(o)
        return v if isinstance(v, T) else mk_b2i(v)
    def gep(self, base, steps):
        def go(p):
            for s in steps:
                if s[0] == 'f': p = pfield(p, s[1], s[2], s[3])
                else:
                    p = padd(p, self.ival(s[3]), s[1])
            return p
        return lift(go, base)

    # ---- memory
    def alias(self, p1, s1, t1, p2, s2, t2):
        r1, o1, i1, h1 = psplit(p1); r2, o2, i2, h2 = psplit(p2)
        if r1 is r2:
            if i1 == i2:
                if o1 == o2 and s1 == s2: return 'must'
                if o1 + s1 <= o2 or o2 + s2 <= o1: return 'no'
                return 'part'
            if h1 and h2 and not suffix_compat(h1, h2): return 'no'
            d = dict(i1)
            for k, v in i2: d[k] = d.get(k, 0) - v
            ks = [v for v in d.values() if v]
            from math import gcd
            g = 0
            for v in ks: g = gcd(g, abs(v))
            if g:
                df = (o1 - o2) % g
                if df >= s2 and df + s1 <= g: return 'no'
            return 'may'
        def loc(r): return r.op == 'alloca'
        if loc(r1) or loc(r2): return 'no'
        if r1.op == 'arg' and r2.op == 'arg' and self.f['name'].startswith(('k_', '_Z')) and self.dem.startswith('k_'): return 'no'   # our own wrappers: distinct objects
        def fresh(r): return r.op == 'call' and r.a[0] in FRESH
        if fresh(r1) and fresh(r2): return 'no'
        if fresh(r1) and (r2.id < r1.id or r2.op in ('arg', 'global')): return 'no'
        if fresh(r2) and (r1.id < r2.id or r1.op in ('arg', 'global')): return 'no'
        if r1.op == 'global' and r2.op == 'global': return 'no'
        if h1 and h2: return 'may' if suffix_compat(h1, h2) else 'no'
        if h1 or h2: return 'no'
        return 'may' if t1 == t2 else 'no'
    def eff_hits(self, effs, ptr, size, ty):
        """effs: [(rootptr or None, path, ty)]"""
        r, o, ix, h = psplit(ptr); hk = pathkey(h)
        for ep, path, ety in effs:
            if ep is not None:
                er, eo, ei, eh = psplit(ep)
                if r.op == 'alloca' or er.op == 'alloca':
                    if r is er: return True
                    continue
                def fresh(x): return x.op == 'call' and x.a[0] in FRESH
                if r is not er and (fresh(er) and (r.id < er.id or r.op == 'arg') or fresh(r) and (er.id < r.id or er.op == 'arg')): continue
                if path == ('*',):
                    if r is er: return True
                    continue
                full = pathkey(eh) + tuple(path)
            else:
                if r.op == 'alloca': continue
                full = tuple(path)
            if full and hk:
                if suffix_compat(full, hk): return True
            elif not full and not hk:
                if ety == ty or ety == 'i8': return True
        return False
    def load(self, mem, ptr, size, ty):
        if ptr.op == 'ite' and len(ptr.a) <= 6:
            return ite([(g, self.load(mem, v, size, ty)) for g, v in ptr.a])
        key = (mem.id, ptr, size)
        r = self._ldm.get(key)
        if r is None:
            r = self._load(mem, ptr, size, ty); self._ldm[key] = r
        return r
    def opaque(self, ptr, ver, ty, size):
        t = mk('ld', ptr, ver)
        if t.info is None:
            r, o, ix, h = psplit(ptr)
            t.info = {'ty': ty}
            if h:
                s, k = h[-1]
                nm = s.split('.', 1)[1] if '.' in s else s
                nm = re.sub(r'\.\d+$', '', nm).split('::')[-1]
                # offset inside the innermost struct is what the debug info knows
                off = self.f.get('_', None)
                for (n2, bo, sz) in self.p.unsigned:
                    if n2 == nm and sz == size * 8 and self.fieldoff(s, k) == bo: t.info['unsigned'] = True
        return t
    def fieldoff(self, s, k):
        return core.FOFF.get((s, k), -1)
    def _load(self, mem, ptr, size, ty):
        m = mem
        while True:
            k = m.k
            if k == 'init':
                r, o, ix, h = psplit(ptr)
                tb = self.p.raw.get('tables', {}).get(r.a[0]) if r.op == 'global' else None
                if tb and tb['size'] == size:
                    v = tb['values']
                    if not ix and o % size == 0 and 0 <= o < size * len(v): return const(v[o // size])
                    if len(ix) == 1 and ix[0][0].op == 'b2i' and abs(ix[0][1]) == size and o % size == 0:
                        j, k2 = o // size, o // size + (1 if ix[0][1] > 0 else -1)
                        if 0 <= j < len(v) and 0 <= k2 < len(v): return ite([(ix[0][0].a[0], const(v[k2])), (bnot(ix[0][0].a[0]), const(v[j]))])
                return self.opaque(ptr, 'i', ty, size)
            if k == 'store':
                a = self.alias(ptr, size, ty, m.d['ptr'], m.d['size'], m.d['ty'])
                if a == 'must':
                    return m.d['val']
                if a == 'no': m = m.prev; continue
                return self.opaque(ptr, m.id, ty, size)
            if k == 'set':
                a = self.alias(ptr, size, ty, m.d['ptr'], 1, 'i8')
                r1, o1, i1, _ = psplit(ptr); r2, o2, i2, _ = psplit(m.d['ptr'])
                if r1 is not r2 and a == 'no': m = m.prev; continue
                if r1 is r2 and i1 == i2 and o1 >= o2 and isc(m.d['len']) and o1 + size <= o2 + m.d['len'].a[0] and m.d['byte'] == 0: return const(0)
                if r1 is r2 and i1 == i2 and isc(m.d['len']) and (o1 >= o2 + m.d['len'].a[0] or o1 + size <= o2): m = m.prev; continue
                if r1 is r2 or a != 'no': return self.opaque(ptr, m.id, ty, size)
                m = m.prev; continue
            if k == 'copy':
                r1, o1, i1, h1 = psplit(ptr); r2, o2, i2, h2 = psplit(m.d['dst'])
                n = m.d['len'].a[0] if isc(m.d['len']) else None
                if r1 is r2 and i1 == i2 and n is not None:
                    if o1 >= o2 and o1 + size <= o2 + n:
                        rs, os_, is_, hs = psplit(m.d['src'])
                        sp = mkptr(rs, os_ + (o1 - o2), is_, hs + h1[len(h2):] if h1[:len(h2)] == h2 else hs)
                        return self.load(m.prev, sp, size, ty)
                    if o1 + size <= o2 or o1 >= o2 + n: m = m.prev; continue
                    return self.opaque(ptr, m.id, ty, size)
                a = self.alias(ptr, size, ty, m.d['dst'], n or 1, 'copy')
                if a == 'no' and r1 is not r2: m = m.prev; continue
                return self.opaque(ptr, m.id, ty, size)
            if k == 'call':
                ev = m.d['ev']
                if ev.sret is not None:
                    rs, os_, is_, _ = psplit(ev.sret); r1, o1, i1, _ = psplit(ptr)
                    if rs is r1 and is_ == i1:
                        if o1 - os_ == 0: return ev.ret
                        if 0 <= o1 - os_ < 4096: return mk('cfield', ev.ret, o1 - os_)
                if self.eff_hits(m.d['eff'], ptr, size, ty):
                    t = self.opaque(ptr, m.id, ty, size)
                    t.info['after'] = ev
                    return t
                m = m.prev; continue
            if k == 'loop':
                if self.loop_writes(m.d['L'], ptr, size, ty): return self.opaque(ptr, 'L%d' % m.d['L'].h, ty, size)
                m = m.prev; continue
            if k == 'phi':
                es = [(g, self.load(x, ptr, size, ty)) for g, x in m.d['ins']]
                if len({v for _, v in es}) == 1: return es[0][1]
                return ite(es)
            raise Exception(k)
    def synroot(self, o):
        """syntactic root of a pointer operand: ('alloca',id) ('arg',id) ('val',id) and path"""
        path = ()
        for _ in range(50):
            if o[0] == 'v':
                d = self.defs.get(o[1])
                if d is None: return (('alloca' if o[1] in self.priv else 'arg'), o[1]), path
                i = d[0]
                if i['op'] == 'getelementptr':
                    path = tuple('%s#%d' % (s[1], s[2]) for s in i['steps'] if s[0] == 'f') + path
                    o = i['ops'][0]; continue
                if i['op'] == 'alloca': return ('alloca', i['id']), path
                return ('val', i['id']), path
            if o[0] == 'g': return ('global', o[1]), path
            return ('val', -1), path
        return ('val', -1), path
    def loop_effs(self, L):
        e = getattr(L, '_effs', None)
        if e is not None: return e
        e = []
        for b in L.blocks:
            if b not in self.blocks: continue
            for i in self.blocks[b]['ins']:
                if i['op'] == 'store':
                    r, p = self.synroot(i['ops'][1])
                    e.append((r, p, self.valty(i['ops'][0], i)))
                elif i['op'] == 'call':
                    n = i.get('callee', '')
                    if n.startswith('llvm.mem'):
                        r, p = self.synroot(i['ops'][0]); e.append((r, p, 'i8'))
                        continue
                    if n.startswith('llvm.'): continue
                    for ai, path, ty in self.calleff(i):
                        if ai is None: e.append((('val', -1), tuple(path), ty))
                        else:
                            r, p = self.synroot(i['ops'][ai])
                            e.append((r, p + tuple(path), ty))
        L._effs = e
        return e
    def loop_writes(self, L, ptr, size, ty):
        r, o, ix, h = psplit(ptr); hk = pathkey(h)
        for er, ep, ety in self.loop_effs(L):
            if r.op == 'alloca':
                if er == ('alloca', r.a[0]):
                    if not hk or not ep or '*' in ep or suffix_compat(hk, ep): return True
                continue
            if er[0] == 'alloca': continue
            if r.op == 'global': 
                if er == ('global', r.a[0]): return True
                continue
            if er[0] == 'global': continue
            if '*' in ep:
                if self.rootval(er) is r or er[0] == 'val': return True
                continue
            if hk and ep:
                if suffix_compat(hk, ep): return True
            elif not hk and not ep:
                if ety == ty or ety == 'i8': return True
        return False
    def rootval(self, er):
        if er[0] in ('arg', 'val'):
            v = self.val.get(er[1])
            if isinstance(v, T): return psplit(v)[0]
        return None
    def valty(self, o, i):
        return i.get('vty') or {'i': lambda: 'i%d' % o[1], 'd': lambda: 'double', 'n': lambda: 'ptr', 'fn': lambda: 'ptr', 'g': lambda: 'ptr', 'cgep': lambda: 'ptr'}.get(o[0], lambda: self.tyof(o))()
    def tyof(self, o):
        if o[0] == 'v':
            d = self.defs.get(o[1])
            if d: return d[0]['ty']
            for a in self.f['args']:
                if a['id'] == o[1]: return a['ty']
        return '?'
    def calleff(self, i):
        """[(argindex or None, path, ty)] what the call may write"""
        c = i.get('_eff')
        if c is not None: return c
        r = []
        dem = i.get('dem', ''); sn = shortname(dem) if dem else ''
        E = self.p.effects()
        tg = [i['callee']] if 'callee' in i else (i.get('vcall') or [None, None])[2:]
        known = False
        short = sn.split('::')[-1]
        if short in PURE or NOEFFECT.match(sn): tg = []; known = True
        for t in tg:
            if t in E:
                known = True
                for root, path, ty in E[t]:
                    if root.startswith('arg:'): r.append((int(root[4:]), path, ty))
                    elif root == 'mem': r.append((None, path, ty))
        pts = paramtypes(dem) if dem else []
        nops = len(i['ops'])
        ofs = nops - len(pts)                 # this / sret come first
        stdc = sn.startswith('std::')
        if not known or stdc:
            for k in range(nops):
                if self.tyof(i['ops'][k]) != 'ptr' and i['ops'][k][0] != 'g': continue
                if i.get('sret') and k == 0: continue
                pt = pts[k - ofs] if k - ofs >= 0 and k - ofs < len(pts) else None
                if pt is not None:
                    if 'const&' in pt or 'const*' in pt or not (pt.endswith('&') or pt.endswith('*')): continue
                    r.append((k, ('*',), '?'))
                elif dem and not isconst(dem) and not NOEFFECT.match(sn): r.append((k, ('*',), '?'))
        if stdc and not isconst(dem) and 'list' in sn.lower():
            for f in ('struct.std::__detail::_List_node_base#0', 'struct.std::__detail::_List_node_base#1', 'struct.std::__detail::_List_node_header#1'):
                r.append((None, (f,), 'ptr'))
            r.append((None, (), 'ptr'))
        i['_eff'] = r
        return r

    def leaving(self, p, b, x):
        """a truth value carried out of a loop, given that the loop is left along p->b"""
        if self.inner(p) == self.inner(b): return x
        eg = self.edge_gate(p, b)
        if eg is FALSE: return x
        if isinstance(x, Bdd): return constrain(x, eg)
        if x.op == 'b2i': return mk_b2i(constrain(x.a[0], eg))
        return x
    # ---- blocks
    def do_block(self, b, g, mem, ins, isH):
        B = self.blocks[b]; h = self.inner(b)
        for i in B['ins']:
            op = i['op']; v = None
            if op == 'phi':
                inc = dict((k, x) for k, x in i['inc'])
                if isH:
                    L = self.loops[b]
                    es = [(eg, self.opv(inc[p])) for eg, _, p in ins if p in inc]
                    if i['ty'] == 'i1':
                        tot = bor(*[e for e, _ in es])
                        init = constrain(bor(*[band(e, x) for e, x in es]), tot)
                        v = atom(mk('phi', b, i['id'], self.f['name'])); L.phis[v] = (i, init)
                    else:
                        init = ite([(e, x if isinstance(x, T) else mk_b2i(x)) for e, x in es])
                        v = mk('phi', b, i['id'], self.f['name']); v.info = {'w': i['ty']}; L.phis[v] = (i, init)
                else:
                    es = [(eg, self.leaving(p, b, self.opv(inc[p]))) for eg, _, p in ins if p in inc]
                    if i['ty'] == 'i1':
                        tot = bor(*[e for e, _ in es])
                        v = constrain(bor(*[band(e, x if isinstance(x, Bdd) else atom(x)) for e, x in es]), tot)
                    else: v = ite([(e, x if isinstance(x, T) else mk_b2i(x)) for e, x in es])
            elif op == 'alloca':
                v = mk('alloca', i['id'], i.get('nm', ''), self.f['name'])
                v.info = {'aty': i.get('aty'), 'size': i.get('size')}
                if i['ops'] and i['ops'][0][0] == 'v':
                    self.ncall += 1
                    v = mk('call', 'alloca_dyn', self.ncall, self.f['name'])
            elif op == 'load':
                p = self.ival(i['ops'][0])
                self.note_fields(i['ops'][0])
                v = self.load(mem, p, i['size'], i['ty'])
                if i['ty'] == 'i1': v = self.tobool(v)
            elif op == 'store':
                p = self.ival(i['ops'][1]); x = self.opv(i['ops'][0])
                self.note_fields(i['ops'][1])
                if isinstance(x, Bdd): x = mk_b2i(x)
                ty = self.valty(i['ops'][0], i)
                ev = Ev(kind='store', ptr=p, value=x, args=[p, x], gate=g, loop=h, block=b, loc=i['loc'], mem=mem, size=i['size'], ty=ty, idx=len(self.events), ins=i)
                self.events.append(ev)
                if p.op == 'ite' and len(p.a) <= 4:
                    for gg, q in p.a:
                        old = self.load(mem, q, i['size'], ty)
                        mem = M('store', mem, ptr=q, val=ite([(gg, x), (bnot(gg), old)]), size=i['size'], ty=ty, ev=ev)
                else:
                    mem = M('store', mem, ptr=p, val=x, size=i['size'], ty=ty, ev=ev)
            elif op == 'getelementptr': v = self.gep(self.ival(i['ops'][0]), i['steps'])
            elif op == 'br':
                if 'ops' in i:
                    c = self.tobool(self.opv(i['ops'][0]))
                    s0, s1 = i['succ']
                    if s0 == s1: self.edge[(b, s0)] = g
                    else:
                        self.edge[(b, s0)] = band(g, c); self.edge[(b, s1)] = band(g, bnot(c))
                else: self.edge[(b, i['succ'][0])] = g
            elif op == 'switch':
                x = self.ival(i['ops'][0]); rest = TRUE
                for cv, dst in i['cases']:
                    c = cmp_eq(x, self.ival(cv))
                    self.edge[(b, dst)] = bor(self.edge.get((b, dst), FALSE), band(g, rest, c)); rest = band(rest, bnot(c))
                self.edge[(b, i['def'])] = bor(self.edge.get((b, i['def']), FALSE), band(g, rest))
            elif op == 'ret':
                x = self.opv(i['ops'][0]) if i['ops'] else None
                ev = Ev(kind='ret', value=x, args=[x] if x is not None else [], gate=g, loop=h, block=b, loc=i['loc'], mem=mem, idx=len(self.events))
                self.events.append(ev); self.rets.append(ev)
            elif op in ('call', 'invoke'):
                v, mem = self.do_call(i, b, g, h, mem)
            elif op == 'unreachable': pass
            else: v = self.alu(i)
            if v is not None: self.val[i['id']] = v
        self.mem_out[b] = mem

    def note_fields(self, o):
        pass

    def tobool(self, v):
        if isinstance(v, Bdd): return v
        if v.op == 'c': return atomc(v.a[0] & 1)
        if v.op == 'b2i': return v.a[0]
        if v.op == 'ite' and len(v.a) <= 8:
            tot = bor(*[g for g, _ in v.a])
            return constrain(bor(*[band(g, self.tobool(x)) for g, x in v.a]), tot)
        if v.op == 'undef': return atom(mk('undefb'))
        return atom(v)

    def alu(self, i):
        op = i['op']; ops = i.get('ops', []); ty = i['ty']
        w = int(ty[1:]) if re.match(r'^i\d+$', ty) else 64
        if op in ('icmp', 'fcmp'):
            a, b = self.opv(ops[0]), self.opv(ops[1]); p = i['pred']
            if isinstance(a, Bdd) or isinstance(b, Bdd):
                x = a if isinstance(a, Bdd) else self.tobool(a); y = b if isinstance(b, Bdd) else self.tobool(b)
                r = bnot(bxor(x, y))
                return r if p == 'eq' else bnot(r)
            if op == 'fcmp': return self.fcmp(p, a, b)
            if p == 'eq': return cmp_eq(a, b)
            if p == 'ne': return bnot(cmp_eq(a, b))
            if p[0] == 'u':
                neg = lambda x: maybe_negative(x)
                if p == 'ult': r = cmp_lt(a, b); return band(r, bnot(cmp_lt0(a))) if neg(a) else r
                if p == 'ugt': r = cmp_lt(b, a); return band(r, bnot(cmp_lt0(b))) if neg(b) else r
                if p == 'uge': r = cmp_lt(a, b); return bnot(band(r, bnot(cmp_lt0(a)))) if neg(a) else bnot(r)
                if p == 'ule': r = cmp_lt(b, a); return bnot(band(r, bnot(cmp_lt0(b)))) if neg(b) else bnot(r)
            if p in ('slt', 'ult'): return cmp_lt(a, b)
            if p in ('sgt', 'ugt'): return cmp_lt(b, a)
            if p in ('sge', 'uge'): return bnot(cmp_lt(a, b))
            if p in ('sle', 'ule'): return bnot(cmp_lt(b, a))
        if op == 'select':
            c = self.tobool(self.opv(ops[0])); a, b = self.opv(ops[1]), self.opv(ops[2])
            if isinstance(a, Bdd) or isinstance(b, Bdd): return bite(c, self.tobool(a), self.tobool(b))
            return ite([(c, a), (bnot(c), b)])
        if ty == 'i1' and op in ('and', 'or', 'xor'):
            a, b = self.tobool(self.opv(ops[0])), self.tobool(self.opv(ops[1]))
            return {'and': band, 'or': bor, 'xor': bxor}[op](a, b)
        if op in ('zext', 'sext'):
            a = self.opv(ops[0])
            if isinstance(a, Bdd): return mk_b2i(a) if op == 'zext' else mulc(mk_b2i(a), -1)
            return a
        if op == 'trunc':
            a = self.ival(ops[0])
            if ty == 'i1':
                return self.tobool(bit_and(32, a, const(1)) if a.op in ('or', 'and', 'b2i') else a)
            if isc(a): return const(sgn(a.a[0] & ((1 << w) - 1), w))
            fw = int(i.get('fromty', 'i64')[1:])
            return lift(lambda t: self.trunc(t, w), a)
        if op in ('bitcast', 'freeze', 'addrspacecast', 'inttoptr', 'ptrtoint'):
            return self.opv(ops[0])
        if op in ('fadd', 'fsub'):
            a, b = self.opv(ops[0]), self.opv(ops[1])
            return lift(lambda x, y: fadd(x, y, 1 if op == 'fadd' else -1), a, b)
        if op in ('sitofp', 'uitofp'):
            a = self.ival(ops[0])
            if isc(a): return mk('fc', float(a.a[0]))
            return mk('i2f', a)
        if op in ('fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg', 'fmul', 'fdiv', 'frem'):
            return mk(op, *[self.opv(x) for x in ops])
        if op == 'extractvalue':
            a = self.opv(ops[0])
            return self.extract(a, tuple(i['idx']))
        if op == 'insertvalue':
            a, b = self.opv(ops[0]), self.ival(ops[1])
            return mk('insv', a, b, tuple(i['idx']))
        a = self.ival(ops[0]); b = self.ival(ops[1]) if len(ops) > 1 else None
        f = None
        if op == 'add': f = lambda x, y: add(x, y)
        elif op == 'sub': f = lambda x, y: self.sub(x, y)
        elif op == 'mul': f = mul
        elif op == 'shl': f = lambda x, y: shl(x, y, w)
        elif op == 'lshr': f = lambda x, y: lshr(x, y, w)
        elif op == 'udiv': f = lambda x, y: lshr(x, const(y.a[0].bit_length() - 1), w) if isc(y) and y.a[0] > 0 and y.a[0] & (y.a[0] - 1) == 0 else mk('udiv', x, y)
        elif op == 'urem': f = lambda x, y: bit_and(w, x, const(y.a[0] - 1)) if isc(y) and y.a[0] > 0 and y.a[0] & (y.a[0] - 1) == 0 else mk('urem', x, y)
        elif op == 'and': f = lambda x, y: bit_and(w, x, y)
        elif op == 'or': f = lambda x, y: bit_or(w, x, y)
        elif op == 'xor': f = lambda x, y: bit_xor(w, x, y)
        elif op == 'sdiv': f = lambda x, y: exactdiv(x, y) or const(int(x.a[0] / y.a[0])) if isc(x) and isc(y) and y.a[0] else (lshr(x, const(y.a[0].bit_length() - 1), w) if isc(y) and y.a[0] > 0 and y.a[0] & (y.a[0] - 1) == 0 and nonneg(x) else mk('sdiv', x, y))
        elif op == 'ashr': f = lambda x, y: const(x.a[0] >> y.a[0]) if isc(x) and isc(y) else (lshr(x, y, w) if nonneg(x) else mk('ashr', x, y))
        elif op == 'srem': f = lambda x, y: const(int(x.a[0] - y.a[0] * int(x.a[0] / y.a[0]))) if isc(x) and isc(y) and y.a[0] else mk('srem', x, y)
        if f: return lift(f, a, b)
        return mk(op, *[self.ival(x) for x in ops])
    def trunc(self, t, w):
        if t.op == 'b2i': return t
        if isc(t): return const(sgn(t.a[0] & ((1 << w) - 1), w))
        full = (1 << w) - 1
        if t.op == 'or':
            ys = [y for y in t.a if maybits(y) & full]
            if len(ys) < len(t.a):
                if not ys: return const(0)
                return self.trunc(ys[0] if len(ys) == 1 else bit_or(64, *ys), w)
        if t.op == 'and' and len(t.a) == 2 and any(isc(y) and y.a[0] & full == full for y in t.a):
            return self.trunc([y for y in t.a if not isc(y)][0], w)
        if t.op in ('ld', 'arg') and t.info and t.info.get('ty') == 'i%d' % w: return t
        return mk('trunc', w, t)
    def sub(self, x, y):
        if x.op in ('ptr', 'alloca') or y.op == 'ptr':
            rx, ox, ix, _ = psplit(x); ry, oy, iy, _ = psplit(y)
            if rx is ry:
                d = dict(ix)
                for k, v in iy: d[k] = d.get(k, 0) - v
                return mklin(ox - oy, d)
        return add(x, y, -1)
    def extract(self, a, idx):
        if a.op == 'insv':
            if a.a[2] == idx: return a.a[1]
            return self.extract(a.a[0], idx)
        if a.op == 'ite': return ite([(g, self.extract(v, idx)) for g, v in a.a])
        if a.op == 'undef': return UNDEF
        t = mk('exv', a, idx)
        return t
    def fcmp(self, p, a, b):
        p2 = p[1:] if p[0] in 'ou' and len(p) == 3 else p
        if p2 == 'lt': return self.flt(a, b)
        if p2 == 'gt': return self.flt(b, a)
        if p2 == 'le': return bnot(self.flt(b, a))
        if p2 == 'ge': return bnot(self.flt(a, b))
        x, y = sorted((a, b), key=lambda t: t.id)
        r = TRUE if x is y else atom(mk('feq', x, y))
        return bnot(r) if p2 == 'ne' else r
    def flt(self, a, b):
        for x, k in ((a, 0), (b, 1)):
            if x.op == 'ite' and len(x.a) <= 6:
                tot = bor(*[g for g, _ in x.a])
                return constrain(bor(*[band(g, self.flt(v, b) if k == 0 else self.flt(a, v)) for g, v in x.a]), tot)
        if a is b: return FALSE
        if a.op == 'fc' and b.op == 'fc': return atomc(a.a[0] < b.a[0])
        if self.sense == 'max': return self.better(b, a)
        if self.sense == 'min': return self.better(a, b)
        return atom(mk('flt', a, b))
    def better(self, a, b):
        for x, k in ((a, 0), (b, 1)):
            if x.op == 'ite' and len(x.a) <= 6:
                tot = bor(*[g for g, _ in x.a])
                return constrain(bor(*[band(g, self.better(v, b) if k == 0 else self.better(a, v)) for g, v in x.a]), tot)
        if a is b: return FALSE
        return atom(mk('better', a, b))

    def do_call(self, i, b, g, h, mem):
        n = i.get('callee', ''); dem = i.get('dem', n)
        ops = i['ops']
        if n.startswith('llvm.'):
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                d, s, l = self.ival(ops[0]), self.ival(ops[1]), self.ival(ops[2])
                ev = Ev(kind='copy', name='memcpy', args=[d, s, l], ptr=d, gate=g, loop=h, block=b, loc=i['loc'], mem=mem, idx=len(self.events))
                self.events.append(ev)
                return None, M('copy', mem, dst=d, src=s, len=l, ev=ev)
            if n.startswith('llvm.memset'):
                d, v, l = self.ival(ops[0]), self.ival(ops[1]), self.ival(ops[2])
                ev = Ev(kind='set', name='memset', args=[d, v, l], ptr=d, gate=g, loop=h, block=b, loc=i['loc'], mem=mem, idx=len(self.events))
                self.events.append(ev)
                return None, M('set', mem, ptr=d, len=l, byte=v.a[0] if isc(v) else None, ev=ev)
            a = [self.opv(x) for x in ops]
            for nm in ('ctpop', 'ctlz', 'cttz'):
                if n.startswith('llvm.' + nm): return mk(nm, a[0]), mem
            for nm in ('umax', 'smax', 'umin', 'smin'):
                if n.startswith('llvm.' + nm):
                    c = cmp_lt(a[0], a[1])
                    x, y = (a[1], a[0]) if 'max' in nm else (a[0], a[1])
                    return ite([(c, x), (bnot(c), y)]), mem
            if n.startswith('llvm.expect'): return a[0], mem
            if n.startswith('llvm.fabs'): return mk('fabs', a[0]), mem
            if n.startswith('llvm.fshl'): return mk('fshl', *a), mem
            if n.startswith('llvm.fmuladd'): return fadd(mk('fmul', a[0], a[1]), a[2]), mem
            if i['ty'] == 'void': return None, mem
            if i['ty'] == 'i1': return atom(mk('intr', n, *[x if isinstance(x, T) else mk_b2i(x) for x in a])), mem
            return mk('intr', n, *[x if isinstance(x, T) else mk_b2i(x) for x in a]), mem
        sn = shortname(dem) if dem else '?indirect'
        vc = i.get('vcall')
        meth = sn.split('::')[-1]
        if vc:
            cls = re.sub(r'^_ZTS\d*', '', vc[0]) if vc[0] else ''
            sn = '%s::%s' % (cls, meth) if not cls.startswith('N') else sn
        if re.match(r'DD(I6UState\S*)?::', sn) and meth in VIRT: sn = 'AbstractDD::' + meth
        mm = re.match(r'(Minimize|Maximize)::(better|betterEQ|bestValue|worstValue)$', sn)
        if not dem:
            fp = self.opv(i['fp'])
            sn = '*fp'; meth = '*fp'
        pts = paramtypes(dem) if dem else []
        ofs = len(ops) - len(pts)
        args = []; raw = []
        sret = None
        for k, o in enumerate(ops):
            v = self.opv(o)
            if isinstance(v, Bdd): v = mk_b2i(v)
            raw.append(v)
            if k == 0 and i.get('sret'): sret = v; continue
            pt = pts[k - ofs] if 0 <= k - ofs < len(pts) else ''
            if pt and deref_param(pt): v = self.load(mem, v, 8 if 'long' in pt or '*' in pt or pt.startswith(('double', 'handle')) else 4 if 'int' in pt else 2 if 'short' in pt else 1 if pt.startswith(('bool', 'char')) else 8, 'double' if pt.startswith('double') else 'ptr' if pt.startswith('handle') or '*' in pt else 'i64' if 'long' in pt else 'i32' if 'int' in pt else 'i64')
            elif v.op == 'alloca' and v.info and v.info.get('aty') and 'handle_ptr' in v.info['aty'] and pt and not pt.endswith('&'):
                v = self.load(mem, v, 8, 'ptr')
            args.append(v)
        if sn == '*fp':
            args = [self.ival(i['fp'])] + args
        self.ncall += 1
        pure = (meth in PURE and ('DD' in sn or 'Strategy' in sn)) or bool(PUREFN.match(sn)) or sn == '*fp' or bool(re.match(r'^(Minimize|Maximize)::', sn)) or (sn.startswith('std::function') and meth == 'operator()' and ('double' in dem or 'bool (double' in dem)) or n in ('rotl', 'ffsll')
        const_m = bool(dem) and isconst(dem)
        if meth in ('isBetter', 'isBetterEQ') and 'DD' in sn: 
            r = self.better(args[1], args[2]) if meth == 'isBetter' else bnot(self.better(args[2], args[1]))
            ev = Ev(kind='call', name=sn, meth=meth, args=args, raw=raw, gate=g, loop=h, block=b, loc=i['loc'], mem=mem, idx=len(self.events), ret=r, sret=None, pure=True, ins=i, dem=dem)
            self.events.append(ev)
            return r, mem
        if meth == 'better' and 'DD' in sn:
            c = self.better(args[1], args[2])
            return ite([(c, args[1]), (bnot(c), args[2])]), mem
        if mm and meth in ('better', 'betterEQ') and self.name.split('::')[0] != mm.group(1):
            r = self.better(args[1], args[2]) if meth == 'better' else bnot(self.better(args[2], args[1]))
            ev = Ev(kind='call', name=sn, meth=meth, args=args, raw=raw, gate=g, loop=h, block=b, loc=i['loc'], mem=mem, idx=len(self.events), ret=r, sret=None, pure=True, ins=i, dem=dem)
            self.events.append(ev)
            return r, mem
        if mm: t = mk('pcall', 'Compare::' + meth)
        elif pure: t = mk('pcall', sn, *args)
        elif const_m and sn.split('::')[0] != 'std' or (const_m and sn.startswith('std::') ):
            t = mk('rcall', sn, *(args + [mk('ver', self.objver(mem, args[0] if args else None))]))
        else: t = mk('call', sn, self.ncall, self.f['name'])
        if t.info is None: t.info = {}
        if i['ty'] == 'i1': ret = atom(t)
        else: ret = t
        ev = Ev(kind='call', name=sn, meth=meth, args=args, raw=raw, gate=g, loop=h, block=b, loc=i['loc'], mem=mem, idx=len(self.events), ret=t, sret=sret, pure=pure, const=const_m, ins=i, dem=dem)
        t.info.setdefault('ev', ev)
        self.events.append(ev)
        effs = []
        if not pure:
            for ai, path, ty in self.calleff(i):
                if ai is None: effs.append((None, path, ty))
                else: effs.append((raw[ai], path, ty))
        if effs or sret is not None: mem = M('call', mem, ev=ev, eff=effs)
        elif not pure and not const_m: mem = M('call', mem, ev=ev, eff=[])
        ev.mem_after = mem
        if i['ty'] == 'void' : return None, mem
        return ret, mem
    def objver(self, mem, obj):
        """identity of the last write to the object behind obj"""
        if obj is None: return 0
        key = ('obj', mem.id, obj)
        r = self._ldm.get(key)
        if r is None:
            r = self._objver(mem, obj); self._ldm[key] = r
        return r
    def _objver(self, mem, obj):
        r, o, ix, h = psplit(obj)
        m = mem
        while True:
            if m.k == 'init': return 'i'
            if m.k in ('store', 'set', 'copy'):
                q = m.d.get('ptr', m.d.get('dst'))
                if psplit(q)[0] is r and (r.op == 'alloca' or psplit(q)[1] == o): return m.id
                m = m.prev; continue
            if m.k == 'call':
                ev = m.d['ev']
                if ev.sret is not None and psplit(ev.sret)[0] is r: return m.id
                if not ev.pure and not ev.const:
                    for q in ev.raw:
                        if psplit(q)[0] is r and (r.op == 'alloca' or pstrip(q) is pstrip(obj)): return m.id
                m = m.prev; continue
            if m.k == 'loop':
                L = m.d['L']
                hit = False
                for b in L.blocks:
                    for i in self.blocks[b]['ins']:
                        if i['op'] == 'call' and not i.get('callee', '').startswith('llvm.'):
                            dem = i.get('dem', '')
                            if dem and isconst(dem): 
                                if i.get('sret') and r.op == 'alloca' and self.synroot(i['ops'][0])[0] == ('alloca', r.a[0]): hit = True
                                continue
                            for q in i['ops']:
                                rt = self.synroot(q)[0]
                                if r.op == 'alloca':
                                    if rt == ('alloca', r.a[0]): hit = True
                                elif rt[0] != 'alloca' and self.rootval(rt) is r: hit = True
                        elif i['op'] == 'store' or i['op'] == 'call':
                            q = i['ops'][1] if i['op'] == 'store' else i['ops'][0]
                            if r.op == 'alloca' and self.synroot(q)[0] == ('alloca', r.a[0]): hit = True
                if hit: return 'L%d' % L.h
                m = m.prev; continue
            if m.k == 'phi':
                vs = {self.objver(x, obj) for _, x in m.d['ins']}
                if len(vs) == 1: return next(iter(vs))
                return m.id

    # ---- queries
    def calls(self, *meths, name=None):
        r = []
        for e in self.events:
            if e.kind != 'call': continue
            if name is not None:
                if re.search(name, e.name): r.append(e)
            elif e.meth in meths or e.name in meths: r.append(e)
        return r
    def stores(self, pred=None): return [e for e in self.events if e.kind == 'store' and (pred is None or pred(e))]
    def dump(self):
        out = ['## ' + self.dem]
        for h, L in self.loops.items():
            out.append(' loop %d parent %s entry %s' % (h, L.parent, bshow(L.entry)))
            for t, (i, init) in L.phis.items():
                back = t.info.get('back') if isinstance(t, T) else getattr(L, 'back_b', {}).get(t.id)
                out.append('   %s init=%s back=%s' % (show(t), show(init), show(back) if back is not None else '?'))
            for p, s in L.all_exits: out.append('   exit %d->%d if %s' % (p, s, bshow(self.edge.get((p, s), FALSE))))
        for e in self.events:
            if e.kind == 'call' and NOEFFECT.match(e.name): continue
            out.append(' %r' % e)
        return '\n'.join(out)
