"""Rule infrastructure: obligations over views, three-valued verdicts."""
import re, os, sys, json, time
from core import *
import core, gvg, sem, build
from sem import View, Unk, Bad, learn, subst, subst_atom, occurs, subterms, before, loop_before, role
from gvg import Program, psplit

class Missing(Exception):
    """a public entry point the property is anchored in is gone: no answer"""

# ------------------------------------------------------- term builders -----
def fld(o, r): return mk('fld', o, r)
def at(b, i): return mk('at', b, i)
def eq(a, b): return cmp_eq(a, b)
def ne(a, b): return bnot(cmp_eq(a, b))
def isnull(a): return cmp_eq(a, NULL)
def bit(t, k): return atom(mk('bit', t, k))
def exact(n): return bit(fld(n, 'layer'), 31)
def rc(name, *a): return mk('rcall', name, *a)
def pc(name, *a): return mk('pcall', name, *a)
def some(c, r, f): return atom(mk('some', c, r, f))
X = mk('x')

OPAQUE = ('phi', 'exit', 'undef', 'unk', 'k', 'intr', 'x?')
def stops(F, t):
    """what to raise for a traversal that may stop early: undecided if that depends on how an inner loop was left"""
    if any(x.op == 'exit' for p, q, eg in t.early for x in atoms_of(F.v.SB(eg))): return lambda m, *a: Unk(m)
    return Bad
def opaque(t):
    for s in subterms(t):
        if s.op in OPAQUE: return True
        if s.op == 'ld': return True
    return False
def theory(*fs):
    """arithmetic facts between the atoms of the formulas"""
    ats = set()
    for f in fs: ats |= set(atoms_of(f))
    th = TRUE
    lts = [a for a in ats if a.op == 'lt0']; eqs = [a for a in ats if a.op == 'eq0']; bts = [a for a in ats if a.op == 'better']
    def norm(t):
        c, d = lin_of(t)
        return c, tuple(sorted(((k.id, v) for k, v in d.items())))
    def neg(p): return tuple((k, -v) for k, v in p)
    L = [(a, *norm(a.a[0])) for a in lts]; E = [(a, *norm(a.a[0])) for a in eqs]
    for a, c, p in L:
        for b, c2, p2 in L:
            if a is b: continue
            if p == p2 and c >= c2: th = band(th, bimp(atom(a), atom(b)))       # p+c<0 -> p+c2<0
            if p == neg(p2):
                # p < -c ; -p < -c2 i.e. p > c2 : both need c2 < p < -c
                if -c - c2 <= 1: th = band(th, bnot(band(atom(a), atom(b))))
                # neither: p >= -c and p <= c2
                if c2 < -c: th = band(th, bor(atom(a), atom(b)))
        for b, c2, p2 in E:
            if p == p2: v = -c2
            elif p == neg(p2): v = c2
            else: continue
            th = band(th, bimp(atom(b), atom(a) if v + c < 0 else bnot(atom(a))))
    for a, c, p in E:
        for b, c2, p2 in E:
            if a is not b and p == p2 and c != c2: th = band(th, bnot(band(atom(a), atom(b))))
    # x = lo-1 / x = lo facts: eq0 between two strict bounds
    for a, c, p in L:
        for b, c2, p2 in L:
            if a is not b and p == p2 and c2 == c - 1:
                for e, c3, p3 in E:          # p < -c+1 and not p < -c  <=> p == -c
                    v = -c3 if p3 == p else c3 if p3 == neg(p) else None
                    if v is not None and v == -c: th = band(th, bimp(band(atom(b), bnot(atom(a))), atom(e)))
            if a is not b and p == neg(p2) and -c - c2 == 2:
                for e, c3, p3 in E:
                    v = -c3 if p3 == p else c3 if p3 == neg(p) else None
                    if v is not None and v == c2 + 1: th = band(th, bimp(band(atom(a), atom(b)), atom(e)))
            if a is not b and p == neg(p2) and c2 == -c:
                for e, c3, p3 in E:          # neither p < -c nor p > -c
                    v = -c3 if p3 == p else c3 if p3 == neg(p) else None
                    if v is not None and v == -c: th = band(th, bimp(band(bnot(atom(a)), bnot(atom(b))), atom(e)))
    if 3 <= len(L) <= 12:
        lit = []
        for a, c, p in L:
            lit.append((atom(a), c, dict(p))); lit.append((bnot(atom(a)), -c - 1, dict(neg(p))))
        pos = {}
        for k, (f, c, p) in enumerate(lit): pos.setdefault(tuple(sorted(p.items())), []).append(k)
        for i in range(len(lit)):
            for j in range(i + 1, len(lit)):
                if i // 2 == j // 2: continue
                d = dict(lit[i][2])
                for x, v in lit[j][2].items():
                    d[x] = d.get(x, 0) + v
                    if d[x] == 0: del d[x]
                c = lit[i][1] + lit[j][1] + 1
                if not d:
                    if c >= 0: th = band(th, bnot(band(lit[i][0], lit[j][0])))
                    continue
                for k in pos.get(tuple(sorted(d.items())), ()):
                    if lit[k][1] <= c: th = band(th, bimp(band(lit[i][0], lit[j][0]), lit[k][0]))
    for a in bts:
        for b in bts:
            if a.a[0] is b.a[1] and a.a[1] is b.a[0]: th = band(th, bnot(band(atom(a), atom(b))))
    for a in ats:
        if a.op == 'peq':
            pass
    return th
def same(f, g, care=TRUE):
    d = band(bxor(f, g), care)
    if d is FALSE: return True
    return band(d, theory(d, f, g)) is FALSE
def entails(f, g):
    d = band(f, bnot(g))
    return d is FALSE or band(d, theory(d)) is FALSE
def satis(f): return band(f, theory(f)) is not FALSE

def chk(got, exp, what, ev=None, care=TRUE):
    """the condition under which something happens must be exp"""
    if same(got, exp, care): return
    known = set(atoms_of(exp))
    op = [a for a in atoms_of(got) if a not in known and opaque(a)]
    if op:
        S = set(op)
        hi = bexists(got, lambda a: a in S)
        lo = bnot(bexists(bnot(got), lambda a: a in S))
        if entails(band(exp, care), hi) and entails(band(lo, care), exp):
            raise Unk('%s: condition not resolved (%s)' % (what, bshow(got)[:200]))
    raise Bad('%s: happens if [%s], should if [%s]' % (what, bshow(got)[:400], bshow(exp)[:300]), ev)
def chk_imp(got, exp, what, ev=None):
    """whenever it happens exp must hold"""
    if entails(got, exp): return
    op = {a for a in atoms_of(got) if opaque(a)}
    if op:
        lo = bnot(bexists(bnot(got), lambda a: a in op))
        if entails(lo, exp): raise Unk('%s: condition not resolved (%s)' % (what, bshow(got)[:200]))
    raise Bad('%s: can happen if [%s], needs [%s]' % (what, bshow(got)[:400], bshow(exp)[:300]), ev)
def chk_at_least(got, exp, what, ev=None):
    """must happen whenever exp"""
    if entails(exp, got): return
    op = {a for a in atoms_of(got) if a not in atoms_of(exp) and opaque(a)}
    if op and entails(exp, bexists(got, lambda a: a in op)): raise Unk('%s: condition not resolved (%s)' % (what, bshow(got)[:200]))
    raise Bad('%s: happens only if [%s], must whenever [%s]' % (what, bshow(got)[:400], bshow(exp)[:300]), ev)
def val(got, exp, what, ev=None, care=TRUE):
    """the value must be exp (term, or list of (gate,term))"""
    es = exp if isinstance(exp, list) else ite_cases(exp)
    if not isinstance(exp, list) and got is exp: return
    if len(es) == 1: es = [(TRUE, es[0][1])]
    for g, v in ite_cases(got):
        for h, w in es:
            c = band(g, h, care)
            if c is FALSE or v is w: continue
            if band(c, theory(c)) is FALSE: continue
            if veq(v, w, c): continue
            if opaque(v) and not opaque(w): raise Unk('%s: value not resolved (%s)' % (what, show(v)[:200]))
            raise Bad('%s: value is %s, should be %s%s' % (what, show(v)[:300], show(w)[:300], '' if c is TRUE else ' (when %s)' % bshow(c)[:200]), ev)
def veq(v, w, care=TRUE):
    if v is w: return True
    if v.op == 'b2i' and w.op in ('b2i', 'c') or w.op == 'b2i' and v.op == 'c':
        f = v.a[0] if v.op == 'b2i' else atomc(v.a[0] & 1)
        g = w.a[0] if w.op == 'b2i' else atomc(w.a[0] & 1)
        return same(f, g, care)
    # equal under an equation of the care set
    for a in atoms_of(care):
        if a.op == 'eq0' and band(care, bnot(atom(a))) is FALSE:
            d = add(v, w, -1)
            if d is a.a[0] or d is mulc(a.a[0], -1): return True
    return False
def pick(t, cond):
    """the value of t when cond holds"""
    cs = [(band(g, cond), v) for g, v in ite_cases(t)]
    cs = [v for g, v in cs if g is not FALSE and band(g, theory(g)) is not FALSE]
    if len(set(cs)) == 1: return cs[0]
    return t

# ----------------------------------------------------------- functions -----
KNOWN_STD = {'std::' + x for x in '''_List_iterator::operator* _List_iterator::operator++ _List_iterator::operator-- __cxx11::list::begin __cxx11::list::end
    __cxx11::list::push_back __cxx11::list::push_front __cxx11::list::erase __cxx11::list::sort __cxx11::list::splice __cxx11::list::pop_front __cxx11::list::pop_back
    __throw_bad_alloc __throw_bad_array_new_length __throw_length_error __weak_count::operator= equal_to::operator() function::operator() function::function
    function::swap hash::operator() operator+ stack::empty stack::pop stack::stack stack::top stack::push vector::clear vector::push_back vector::reserve
    __cxx11::list::size vector::size move forward'''.split()}
class F:
    def __init__(self, R, prof, f, sense=None):
        self.R = R; self.prof = prof; self.f = f
        self.g = R.prog(prof).graph(f, sense); self.v = View(self.g)
        self.name = self.g.name; self.dem = self.g.dem
        self.events = [e for e in self.g.events]
        self.claimed = set()
    S = property(lambda s: s.v.S)
    @property
    def args(self): return self.g.args
    def thisp(self): return self.g.args[1] if self.g.f['args'] and self.g.f['args'][0].get('sret') else self.g.args[0]
    def A(self, k):
        """k-th source-level argument (0 = this for a member), stripped value"""
        n = k + (1 if self.g.f['args'] and self.g.f['args'][0].get('sret') else 0)
        a = self.g.args[n]
        if a.op == 'alloca': return mk('fld', a, 'f0')
        return a
    def calls(self, *meths):
        r = [e for e in self.events if e.kind == 'call' and (e.meth in meths or e.name in meths)]
        return r
    def lv(self, e):
        """the place a store writes, as the term a load from it would be"""
        def ld(p):
            t = mk('ld', p, 'st.%s' % getattr(e, 'ty', ''))
            if t.info is None: t.info = {'ty': getattr(e, 'ty', '')}
            return self.v.S(t)
        if e.ptr.op == 'ite': return ite([(self.v.SB(g), ld(p)) for g, p in e.ptr.a])
        return ld(e.ptr)
    def stores(self, r=None, obj=None):
        out = []
        for e in self.events:
            if e.kind != 'store': continue
            l = self.lv(e)
            if psplit(e.ptr)[0].op == 'alloca' : continue
            if r is not None and not any(x.op == 'fld' and x.a[1] == r and (obj is None or x.a[0] is obj) for _, x in ite_cases(l)): continue
            out.append(e)
        return out
    def a(self, e, k): return self.v.S(e.args[k])
    def val(self, e): return self.v.S(e.value)
    def gate(self, e): return self.v.gate(e)
    def levels(self, e): return self.v.levels(e)
    def under(self, e): return self.v.under(e)
    def where(self, e): return e.where() if e is not None else self.dem
    def retval(self):
        rs = [e for e in self.g.rets if e.gate is not FALSE]
        if not rs: raise Unk('%s does not return' % self.name)
        vs = []
        for e in rs:
            x = e.value
            if x is None: return None
            if isinstance(x, Bdd): x = mk_b2i(x)
            vs.append((self.v.SB(e.gate), self.v.S(x)))
        return ite(vs)
    def retbool(self):
        t = self.retval()
        return self.v.SB(self.g.tobool(t)) if t is not None else None
    def sret(self, off=0, size=8, ty='ptr', path=()):
        """value returned through the hidden result object"""
        r = self.g.args[0]
        vs = []
        for e in self.g.rets:
            if e.gate is FALSE: continue
            p = r if off == 0 else mkptr(r, off, (), path)
            vs.append((self.v.SB(e.gate), self.v.S(self.g.load(e.mem, p, size, ty))))
        return ite(vs)
    def final(self, ptr, size, ty):
        vs = []
        for e in self.g.rets:
            if e.gate is FALSE: continue
            vs.append((self.v.SB(e.gate), self.v.S(self.g.load(e.mem, ptr, size, ty))))
        return ite(vs)
    def loops(self): return [t for t in self.v.trav.values()]
    def one(self, evs, what):
        evs = [e for e in evs if e.gate is not FALSE]
        if not evs:
            x = self.foreign()
            if x: raise Unk('%s: %s not found; done by %s?' % (self.name, what, x))
            raise Bad('%s: %s is gone' % (self.name, what))
        if len(evs) > 1: raise Unk('%s: %s at several places' % (self.name, what))
        return evs[0]
    def foreign(self):
        """a library operation that the rules have no model for and that can do the work of one they look for"""
        for e in self.events:
            if e.kind != 'call' or e.gate is FALSE: continue
            m = e.name or ''
            if not m.startswith(('std::', '__gnu_cxx::')) or m in KNOWN_STD or 'Function' in m or 'shared' in m or '~' in m: continue
            if m in ('std::vector::vector', 'std::__cxx11::list::list') and len(e.args) < 3: continue
            return m
        return None
    def sc(self, e, k, ty='i32', size=4):
        """the scalar handed over by reference as argument k"""
        t = self.v.S(e.args[k])
        if psplit(e.args[k])[0].op == 'alloca': t = self.v.S(self.g.load(e.mem, e.args[k], size, ty))
        return t
    def live(self, evs):
        """events that can happen, every enclosing level included"""
        return [e for e in evs if all(g is not FALSE for _, g in self.v.levels(e))]
    def fullgate(self, e, stop=None):
        """conjunction of the gates from outside loop `stop` inward; loops below it must be full"""
        lv = self.v.levels(e); r = TRUE
        for t, g in lv: r = band(r, g)
        return r

class R:
    """one property's run"""
    def __init__(self, pid, tier='quick'):
        self.pid = pid; self.tier = tier
        self.obl = []; self.und = []; self.viol = []; self.fnsseen = set(); self.files = []
        self.stats = {'functions': 0, 'events': 0, 'loops': 0}
    _progs = {}
    def prog(self, prof):
        if prof not in R._progs:
            j, fs = build.program_json(prof)
            R._progs[prof] = Program(j)
            if prof == 'dd':
                m = learn(R._progs[prof])
                if m: raise Missing('accessors not understood: ' + ', '.join(m))
            R._progs[prof].srcs = fs
        self.files = R._progs[prof].srcs
        return R._progs[prof]
    def fns(self, prof, rx, sense=None, must=True):
        fs = self.prog(prof).find(rx)
        if not fs:
            if must: raise Missing('nothing matches ' + rx)
            return []
        out = []
        for f in fs:
            k = (prof, f['name'], sense)
            if k not in R._F: R._F[k] = F(self, prof, f, sense)
            x = R._F[k]; x.R = self
            if k not in self.fnsseen:
                self.fnsseen.add(k); self.stats['functions'] += 1; self.stats['events'] += len(x.events); self.stats['loops'] += len(x.v.trav)
            out.append(x)
        return out
    _F = {}
    def fn(self, prof, rx, sense=None, must=True):
        r = self.fns(prof, rx, sense, must)
        return r[0] if r else None
    def umbrella(self, tags): return any('C01' <= t <= 'C15' for t in tags.split())
    def ob(self, tags, name, f, *a, **k):
        """one obligation, decided if it belongs to this property"""
        if self.pid not in tags.split() and not (self.pid == 'C00' and self.umbrella(tags)): return
        try:
            f(*a, **k)
            self.obl.append(name)
        except Bad as b:
            mv = set().union(*[p.moved for p in R._progs.values()]) if R._progs else set()
            if mv: self.und.append((name, 'layout of %s changed: %s' % (', '.join(sorted(mv)), b.msg)))
            else: self.viol.append((name, b.msg, b.ev.where() if b.ev is not None else ''))
        except Unk as u:
            self.und.append((name, str(u)))
        except Missing: raise
        except Exception as e:
            # a shape the rule was not written for is "undecided", never an alarm
            if os.environ.get('CODD_DEBUG'): raise
            self.und.append((name, 'rule does not apply to this shape: %s: %s' % (type(e).__name__, e)))
RULES = {}
def rule(*pids):
    def d(f):
        for p in pids: RULES.setdefault(p, []).append(f)
        if any('C01' <= p <= 'C15' for p in pids): RULES.setdefault('C00', []).append(f)
        return f
    return d
def chk_between(got, lo, hi, what, ev=None):
    """must happen whenever lo, may happen only if hi"""
    chk_at_least(got, lo, what, ev)
    chk_imp(got, hi, what, ev)
