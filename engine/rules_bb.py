"""Branch and bound: which nodes are explored, kept, dropped."""
import rules
from rules import *
from rules_dd import *
from rules_val import full, loopgate, nested
from rules_model import ddf, VAL, aroot, SENSES

def limit(F):
    """the time limit is set and says stop"""
    me = F.A(0)
    c = F.one(F.calls('std::function::operator()'), 'asking the time limit')
    if F.a(c, 0) is not mk('adr', me, 'BAndB.2'): raise Unk('time limit')
    t = F.v.SB(F.g.tobool(c.ret)) if hasattr(c, 'ret') and c.ret is not None else None
    return c, band(F.gate(c), t) if t is not None else None

class Search:
    def __init__(self, r):
        F = self.F = r.fn('dd', r'^BAndB::search\(Bounds&\)(?!.*::\$)')
        self.me, self.b = F.A(0), F.A(1)
        self.primal = fld(self.b, 'f0')
        st = F.calls('AbstractDD::setStrategy')
        self.kind = {}
        self.strat = {}
        for e in st:
            o = F.a(e, 1)
            vt = [F.val(s) for s in F.events if s.kind == 'store' and F.S(s.ptr) is o]
            for v in vt:
                s = show(v)
                k = 'Relaxed' if '_ZTV7Relaxed' in s else 'Restricted' if '_ZTV10Restricted' in s else 'Exact' if '_ZTV5Exact' in s else None
                if k: self.kind[F.a(e, 0)] = k; self.strat[F.a(e, 0)] = o
        self.ext = F.one(F.calls('Heap::extractMax'), 'taking a node out of the queue')
        self.pq = F.a(self.ext, 0)
        us = F.under(self.ext)
        if len(us) != 1: raise Unk('main loop')
        self.main = us[0]
        self.node = F.S(self.ext.ret)
        self.key = mk('cfield', self.node, 8)
        self.apply = [e for e in F.calls('AbstractDD::apply') if self.main in F.under(e)]
        self.rx = [d for d, k in self.kind.items() if k == 'Relaxed']
        self.rs = [d for d, k in self.kind.items() if k == 'Restricted']
        if len(self.rx) != 1 or len(self.rs) != 1:
            if not st: raise Bad('search: no strategy is given to the diagrams')
            if set(self.kind.values()) and len(self.kind) == len(st): raise Bad('search: the diagrams are compiled with %s, needs one relaxed and one restricted' % sorted(self.kind.values()), st[0])
            raise Unk('strategies')
        self.rx = self.rx[0]; self.rs = self.rs[0]
        self.ins = [e for e in F.calls('Heap::insertHeap', 'Heap::insert') if F.a(e, 0) is self.pq]
    def entry(self, e):
        """(node, key) inserted by e"""
        F = self.F; p = e.args[1]
        n = F.S(F.g.load(e.mem, p, 8, 'ptr'))
        k = F.S(F.g.load(e.mem, mkptr(*addoff(p, 8)), 8, 'double'))
        return n, k
def addoff(p, d):
    r, off, idx, path = psplit(p)
    return r, off + d, idx, ()
def mkp(r, off, idx, path): return mkptr(r, off, idx, path)

@rule('C01', 'C12', 'C13', 'C14', 'C15')
def search(r):
    try: s = Search(r)
    except Bad as b:
        def bad(b=b): raise b
        r.ob('C12 C13 C14', 'search: roles', bad); return
    except Unk as u:
        def unk(u=u): raise u
        r.ob('C12 C13 C14', 'search: roles', unk); return
    F = s.F; rx, rs, pq, node, key = s.rx, s.rs, s.pq, s.node, s.key
    me, B = s.me, s.b; main = s.main
    cpx = F.g.better
    def lim():
        c = [e for e in F.calls('std::function::operator()') if F.a(e, 0) is mk('adr', me, 'BAndB.2')]
        if not c: return FALSE
        return bor(*[band(F.gate(e), F.v.SB(F.g.tobool(e.ret))) for e in c])
    LIM = lim()
    isset = [a for a in atoms_of(LIM) if a.op == 'eq0']
    better = cpx(key, s.primal)
    ap_rx = [e for e in s.apply if F.a(e, 0) is rx]; ap_rs = [e for e in s.apply if F.a(e, 0) is rs]

    # statistics of the search: counters that say nothing about the node at hand
    cnt = set()
    for p_, (ins_, init_) in F.g.loops[main.h].phis.items():
        if isinstance(p_, T) and isc(F.S(init_)) and p_.info.get('back') is not None:
            ds = [add(v, p_, -1) for _, v in ite_cases(p_.info['back'])]
            if all(isc(d_) and 0 <= d_.a[0] < 2 for d_ in ds) and any(d_.a[0] == 1 for d_ in ds): cnt.add(p_)
    def isctr(a): return a.op in ('lt0', 'eq0') and any(x in cnt for x in subterms(a)) and all(x in cnt or x.op not in OPAQUE and x.op != 'ld' for x in subterms(a))
    def surely(f, exp):
        k = set(atoms_of(exp)); return bnot(bexists(bnot(f), lambda a: a not in k and isctr(a)))
    def chk_at_least(got, exp, what, ev=None): return rules.chk_at_least(surely(got, exp), exp, what, ev)
    def chk(got, exp, what, ev=None, care=TRUE): return rules.chk(surely(got, exp), exp, what, ev, care)
    def roles():
        for d in (rx, rs):
            e = [x for x in F.calls('AbstractDD::duplicate') if F.S(x.ret) is d]
            if not e:
                if d is fld(me, 'f0'): continue
                raise Unk('diagram')
            val(F.a(e[0], 0), fld(me, 'f0'), 'search: diagram copied', e[0])
        for e in F.calls('AbstractDD::setStrategy'): chk(F.gate(e), TRUE, 'search: strategy', e)
        for d in (rx, rs):
            ws = [x for x in F.stores('WidthBounded._mxw') if F.S(x.ptr) is mk('adr', s.strat[d], 'WidthBounded._mxw') and not F.under(x)]
            for x in ws: val(F.val(x), fld(me, 'BAndB.1'), 'search: width', x)
            if not ws: raise Unk('width')
    r.ob('C12', 'search: one relaxed and one restricted copy of the model, both of the requested width', roles)

    def flags(eg):
        """a flag kept over the turns: what set it must have been a reason to stop"""
        for a in atoms_of(eg):
            if a.op == 'some' and implies(a.a[2], bor(LIM, bnot(better))): eg = band(eg, bnot(atom(a)))
        if any(a.op == 'some' for a in atoms_of(eg)): raise Unk('main loop: a flag')
        return eg
    def drain():
        if main.kind == '?':
            sz = {x for p, q, eg in main.exits for a in atoms_of(eg) for x in subterms(a) if x.op == 'rcall' and x.a[0] == 'Heap::size' and F.S(x.a[1]) is pq}
            if len(sz) != 1: raise Unk('main loop is ?')
            none = F.v.SB(cmp_lt0(add(sz.pop(), const(-1))))
            for p, q, eg in main.exits:
                rules.chk_imp(bexists(F.v.SB(eg), isctr), bor(none, LIM, bnot(better)), 'search: stopping with nodes left', s.ext)
            raise Unk('main loop is ?')
        if main.kind != 'drain' or main.cont_obj is not pq: raise Unk('main loop is %s' % main.kind)
        if getattr(main, 'short', False): raise Bad('search: stops with nodes left', s.ext)
        if getattr(main, 'mixed', False):
            eg = F.v.SB(main.natural[2])
            eg = flags(eg)
            none = bor(*[band(eg, w) for a in atoms_of(eg) if a.op == 'rcall' or any(x.op == 'rcall' for x in subterms(a)) for w in (atom(a), bnot(atom(a))) if implies(w, eg)])
            rules.chk_imp(bexists(eg, isctr), bor(none, LIM, bnot(better)), 'search: stopping with nodes left', s.ext)
        for p, q, eg in main.early:
            g = flags(F.v.SB(eg))
            chk_imp(g, bor(LIM, bnot(better)), 'search: stopping with nodes left', s.ext)
        chk(loopgate(F, main), TRUE, 'search: main loop', s.ext)
        e = s.ext; chk_at_least(F.gate(e), bnot(LIM), 'search: taking a node', e)
    r.ob('C12 C13', 'search: goes on until no node is left, unless told to stop', drain)

    def explore():
        e = F.one(ap_rx, 'relaxing the node')
        val(F.a(e, 1), node, 'search: node relaxed', e); val(F.a(e, 2), B, 'search: bounds', e)
        if F.under(e) != [main]: raise Unk('nested')
        chk_at_least(F.gate(e), band(better, bnot(LIM)), 'search: exploring a node that may still improve', e)
    r.ob('C12', 'search: every node whose bound beats the incumbent is relaxed', explore)
    def relbest():
        """the relaxed diagram shows a value that beats the incumbent (what a positive answer of apply means)"""
        return band(cpx(fld(fld(rx, 'sink'), 'bound'), s.primal), cpx(fld(fld(rx, 'sink'), 'bound'), fld(fld(rs, 'sink'), 'bound')))
    def restr():
        e = F.one(ap_rs, 'restricting the node')
        x = F.one(ap_rx, 'relaxing the node')
        val(F.a(e, 1), node, 'search: node restricted', e); val(F.a(e, 2), B, 'search: bounds', e)
        R = F.v.SB(F.g.tobool(x.ret))
        chk_at_least(F.gate(e), band(F.gate(x), R, relbest()), 'search: looking for solutions below a node that may still improve', e)
    r.ob('C12 C14', 'search: the restricted diagram is tried on every promising node', restr)

    cuts = F.calls('AbstractDD::computeCutSet')
    def cutset():
        c = F.one(cuts, 'the cutset')
        x = F.one(ap_rx, 'relaxing the node'); y = F.one(ap_rs, 'restricting the node')
        val(F.a(c, 0), rx, 'search: cutset of', c)
        R = F.v.SB(F.g.tobool(x.ret))
        ex = lambda d: F.v.SB(F.g.tobool(fld(d, 'ddexact')))
        exx = flagatom(F, c, fld(rx, 'ddexact')); exs = flagatom(F, c, fld(rs, 'ddexact'))
        chk_at_least(F.gate(c), band(F.gate(x), R, relbest(), bnot(exx), bor(bnot(F.gate(y)), bnot(exs))), 'search: branching', c)
        for d, ev in ((rx, x), (rs, y)):
            if exx is not FALSE and not reads_after(F, c, fld(d, 'ddexact'), ev): raise Bad('search: the exactness of the diagram is looked at before it is compiled', c)
        if not before(x, c): raise Bad('search: the cutset is taken before the node is relaxed', c)
    r.ob('C12', 'search: a node is closed without branching only if one diagram is exact or it cannot improve', cutset)

    def kids():
        c = F.one(cuts, 'the cutset')
        cs = F.S(c.ret)
        ts = [t for t in F.loops() if t.kind in ('ptr', 'vec', 'stdvec', 'idx', 'iter', 'subiter') and nested(F, t, main) and occurs_any(F, t, cs, c)]
        if not ts: raise Unk('the cutset is not gone through in a recognised way')
        if len(ts) > 1: raise Unk('several loops over the cutset')
        return c, ts[0]
    def cutloop():
        c, t = kids()
        if t.early: raise Bad('search: going through the cutset may stop early', c)
        if not t.full: raise Unk('cutset loop')
        if t.kind == 'ptr':
            if not (F.S(t.lo) is F.S(F.g.load(c.mem_after, c.args[-1] if False else sretp(F, c), 8, 'ptr')) or same_root(F.S(t.lo), c)): raise Bad('search: the cutset is gone through from %s' % show(F.S(t.lo))[:100], c)
        chk_at_least(loopgate(F, t, main), F.gate(c), 'search: going through the cutset', c)
    r.ob('C13', 'search: every node of the cutset is looked at', cutloop)

    def root():
        outs = [e for e in s.ins if not F.under(e)]
        if not outs: raise Bad('search: the root is not put in the queue')
        ini = F.one([e for e in F.calls('AbstractDD::init')], 'the root')
        cl = F.one([e for e in F.calls('AbstractNodeAllocator::cloneNode') if not F.under(e)], 'copying the root')
        val(F.a(cl, 1), F.S(ini.ret), 'search: root', cl)
        val(F.a(ini, 0), rx, 'search: root of', ini)
        chk(bor(*[F.gate(e) for e in outs]), TRUE, 'search: putting the root in the queue', outs[0])
        hl = F.v.SB(F.g.tobool(F.S(F.calls('AbstractDD::hasLocal')[0].ret))) if F.calls('AbstractDD::hasLocal') else FALSE
        nd = F.S(cl.ret)
        for e in outs:
            n, k = s.entry(e)
            val(n, nd, 'search: root put in the queue', e)
            for g, v in ite_cases(k):
                c = band(g, F.gate(e))
                if c is FALSE: continue
                okk = v.op == 'pcall' and v.a[0] == 'AbstractDD::initialWorst' or v is pc('Compare::worstValue') or \
                      islocal(F, v, rx, (nd,)) and entails(c, hl) or \
                      v.op == 'flin' and {x for x, _ in v.a[1]} and all(x is fld(nd, 'bound') or islocal(F, x, rx, (nd,)) for x, _ in v.a[1]) and len(v.a[1]) == 2
                if not okk:
                    if opaque(v): raise Unk('root key')
                    raise Bad('search: key of the root is %s' % show(v)[:150], e)
            if not in_mem(e, F.g.loops[main.h].entry_mem): raise Unk('order')
    r.ob('C13 C12 C01', 'search: the root is put in the queue with a valid bound', root)

    def keep():
        c, t = kids()
        n = t.elem
        if t.kind == 'idx':
            ns = {x for e in F.events if t in F.under(e) for a in atoms_of(F.gate(e)) for x in subterms(a) if x.op == 'at' and x.a[1] is t.phi and 'computeCutSet' in show(x.a[0])}
            if len(ns) != 1 or F.S(t.lo) is not const(0): raise Unk('which nodes of the cutset are looked at')
            n = ns.pop()
        isroot = eq(n, fld(rx, 'root'))
        inl = [e for e in s.ins if t in F.under(e)]
        req = []; new = []
        cl = [e for e in F.calls('AbstractNodeAllocator::cloneNode') if t in F.under(e)]
        clr = {F.S(e.ret): e for e in cl}
        for e in inl:
            if F.under(e)[-1] is not t: raise Unk('nested insertion')
            nn, k = s.entry(e)
            vs = {v for _, v in ite_cases(nn)}
            if vs == {node}: req.append((e, k))
            elif len(vs) == 1 and list(vs)[0] in clr: new.append((e, list(vs)[0], k))
            elif any(v is node or v in clr for v in vs): raise Unk('entry')
            elif any(opaque(v) for v in vs): raise Unk('entry')
            else: raise Bad('search: %s is put in the queue' % ', '.join(show(v)[:80] for v in vs), e)
        return c, t, n, isroot, req, new, clr
    def requeue():
        c, t, n, isroot, req, new, clr = keep()
        chk(bor(*[F.gate(e) for e, k in req]), isroot, 'search: putting the node back when its cutset is its own root', req[0][0] if req else c)
        for e, k in req:
            if k is not key and not (k.op == 'pcall' and k.a[0] == 'AbstractDD::initialWorst'):
                if opaque(k): raise Unk('key')
                raise Bad('search: put back with key %s' % show(k)[:150], e)
        ws = [e for e in F.stores('WidthBounded._mxw') if t in F.under(e)]
        w = fld(s.strat[rx], 'WidthBounded._mxw')
        ok = FALSE
        for e in ws:
            if F.S(e.ptr) is not mk('adr', s.strat[rx], 'WidthBounded._mxw'): continue
            v = F.val(e); c0, d = lin_of(v)
            if d.get(w, 0) >= 1 and len(d) == 1 and c0 >= 0 and (c0 > 0 or d[w] > 1): ok = bor(ok, F.gate(e))
            elif not opaque(v) : raise Bad('search: new width is %s' % show(v)[:100], e)
            else: raise Unk('width')
        chk_at_least(ok, isroot, 'search: widening when the cutset is the root', c)
    r.ob('C13', 'search: a node whose cutset is its own root is tried again, wider', requeue)

    def kept():
        c, t, n, isroot, req, new, clr = keep()
        if not new: raise Bad('search: the nodes of the cutset are not put in the queue', c)
        cand = cpx(fsum(fld(n, 'bound'), fld(n, 'bbound')), s.primal)
        dom = domatom(F, t, n, new)
        for e, nd, k in new:
            cl = clr[nd]
            val(F.a(cl, 1), n, 'search: node copied', cl)
            val(F.a(cl, 0), F.S(F.calls('AbstractDD::makeNDAllocator')[0].ret) if F.calls('AbstractDD::makeNDAllocator') else F.a(cl, 0), 'search: allocator', cl)
            chk_at_least(F.gate(cl), band(bnot(isroot), cand, bnot(dom)), 'search: keeping a node of the cutset', cl)
            hl = [F.v.SB(F.g.tobool(F.S(x.ret))) for x in F.calls('AbstractDD::hasLocal')]
            for g, v in ite_cases(k):
                cc = band(g, F.gate(e))
                if not satis(cc): continue
                good = False
                if v in {fsum(fld(x, 'bound'), fld(y, 'bbound')) for x in (n, nd) for y in (n, nd)} or v.op == 'pcall' and v.a[0] == 'AbstractDD::initialWorst': good = True
                elif v.op == 'flin' and v.a[0] == 0 and len(v.a[1]) == 2:
                    ts = {x: y for x, y in v.a[1]}
                    lc = [x for x in ts if islocal(F, x, rx, (nd, n))]
                    bo = [x for x in ts if x is fld(n, 'bound') or x is fld(nd, 'bound')]
                    good = len(lc) == 1 and len(bo) == 1 and set(ts.values()) == {1} and bool(hl) and entails(cc, bor(*hl))
                if not good:
                    if opaque(v): raise Unk('key')
                    raise Bad('search: key of a new node is %s' % show(v)[:200], e)
            imp = bor(*[band(g, cpx(v, s.primal)) for g, v in ite_cases(k)])
        # the node must get in unless it is justified to leave it out
        tot = FALSE; need = FALSE
        for e, nd, k in new:
            imp = bor(*[band(g, cpx(v, s.primal)) for g, v in ite_cases(k)])
            tot = bor(tot, F.gate(e))
            need = bor(need, band(F.gate(clr[nd]), ne(nd, NULL), imp))
        chk_at_least(tot, need, 'search: putting a node of the cutset in the queue', new[0][0])
    r.ob('C13', 'search: a node of the cutset is left out only if it cannot improve, is dominated or is known with as good a bound', kept)

    def removal():
        c, t, n, isroot, req, new, clr = keep()
        rms = [e for e in F.calls('Heap::remove') if F.a(e, 0) is pq]
        dropped = any(x.op == 'pcall' and x.a[0] == 'AbstractDD::dominates' or x.op in OPAQUE for e, nd, k in new for a in atoms_of(F.gate(clr[nd])) for x in subterms(a))
        def apart(e, w, q, ren=lambda f: f):
            """two nodes that dominate each other must not both be given up"""
            if not dropped: return
            try: dom = domatom(F, t, n, new)
            except Bad: return
            around = band(F.gate(e), F.gate(w), *[loopgate(F, u) for x in (e, w) for u in F.under(x) if u is not t and u is not main])
            if dom is not FALSE and implies(around, bnot(dom)): return
            mutual = band(bnot(cpx(fld(n, 'bound'), fld(q, 'bound'))), domin(F, rx, q, n))
            chk_imp(ren(F.gate(w)), bnot(ren(mutual)), 'search: a queued node gives way to a new one that is itself given up for it', w)
        for e in rms:
            x = F.a(e, 1)
            if x.op == 'pcall' or x.op == 'rcall':
                q = fld(x, 'f0')
                chk_imp(F.gate(e), band(bnot(cpx(fld(q, 'bound'), fld(n, 'bound'))), domin(F, rx, n, q)), 'search: removing a dominated node', e)
                continue
            if x.op != 'at': raise Unk('what is removed')
            arr = x.a[0]
            ss = [w for w in F.stores() if F.lv(w).op == 'at' and F.lv(w).a[0] is arr]
            if not ss: raise Unk('array')
            for w in ss:
                q0 = F.val(w)
                if not (q0.op in ('rcall', 'pcall') and q0.a[0] == 'Heap::operator[]'): raise Unk('candidate for removal')
                q = fld(q0, 'f0')
                ix = F.lv(w).a[1]        # any number of candidates may have been found before
                ctr = lambda a: all(x is ix or x is lp.phi or x.op not in OPAQUE for x in subterms(a)) and a.op in ('lt0', 'eq0') and (occurs(a, ix) or lp.phi is not None and occurs(a, lp.phi))
                lp = F.under(w)[-1]
                ren = lambda f: bsubst(f, lambda z: subst_atom(F.g, z, lp.phi, mk('i')))
                chk_imp(ren(bexists(F.gate(w), ctr)), ren(band(bnot(cpx(fld(q, 'bound'), fld(n, 'bound'))), domin(F, rx, n, q))), 'search: a queued node gives way to a new one', w)
                apart(e, w, q, lambda f: ren(bexists(f, ctr)))
                lt = F.under(w)[-1]
                ix = F.lv(w).a[1]
                # one cell per candidate: the counter moves with the store
                ph = F.g.loops[lt.h].phis
                raw = [p for p in ph if isinstance(p, T) and F.S(p) is ix]
                if len(raw) != 1: raise Unk('counter')
                back = raw[0].info.get('back'); 
                for g, v in ite_cases(back):
                    g = F.v.SB(constrain(g, lt.cont)); v = F.S(v)
                    if not satis(g): continue
                    if v is add(ix, const(1)): chk_imp(band(g, F.v.SB(lt.cont), *[bnot(F.v.SB(x[2])) for x in lt.early]), F.gate(w), 'search: counting candidates', w)
                    elif v is ix: 
                        if satis(band(g, F.gate(w))): raise Bad('search: a candidate is overwritten', w) if False else Unk('counter')
                    else: raise Unk('counter')
                val(F.S(ph[raw[0]][1]), const(0), 'search: first candidate', w)
            lt = F.under(e)[-1]
            ix = x.a[1]
            ph = F.g.loops[lt.h].phis
            raw = [p for p in ph if isinstance(p, T) and F.S(p) is ix]
            if len(raw) != 1: raise Unk('removal index')
            val(F.S(ph[raw[0]][1]), const(0), 'search: first removal', e)
            g = F.gate(e)
    r.ob('C13', 'search: only dominated nodes are taken out of the queue', removal)

    def order():
        ls = [f for f in r.fns('dd', r'^BAndB::search\(Bounds&\)::\$_\d+::operator\(\)\(QNode', must=False)]
        if len(ls) != 1: raise Unk('comparator')
        L = ls[0]
        a, b = L.A(1), L.A(2)
        chk(L.retbool(), L.g.better(fld(a, 'QNode.bound'), fld(b, 'QNode.bound')), 'search: order of the queue')
    r.ob('C12', 'search: the queue is ordered by bound, most promising first', order)

    def attached():
        a = F.one(F.calls('Bounds::attach'), 'attaching the model'); val(F.a(a, 0), B, 'search: bounds', a); chk(F.gate(a), TRUE, 'search: attach', a)
        for x in s.apply:
            if not in_mem(a, F.g.loops[main.h].entry_mem): raise Bad('search: nodes are explored before the bounds are set', a)
    r.ob('C14', 'search: the incumbent starts from the given bounds', attached)
    def untouched():
        # the incumbent and the callbacks are the business of the diagrams and of the user
        notset = [cmp_eq0(x) for e in F.events for a in atoms_of(F.gate(e)) for x in a.a if isinstance(x, T) and x.op == 'fld' and x.a == (B, 'Bounds._primalSet')]
        for e in F.events:
            if e.kind in ('store', 'copy', 'set') and aroot(e.ptr) is F.g.args[1]:
                l = F.S(e.ptr); g = F.gate(e)
                if g is FALSE: continue
                if e.kind == 'store' and l.op == 'adr' and l.a[1] == 'Bounds._primalSet': continue
                if any(implies(g, n) for n in notset): continue
                if e.kind != 'store' or l is not B: raise Bad('search: the bounds given are overwritten', e)
                chk_imp(g, cpx(F.val(e), s.primal), 'search: the incumbent is changed', e)
                raise Unk('search: the incumbent is changed')
            if e.kind == 'call' and e.args and isinstance(e.args[0], T) and aroot(e.args[0]) is F.g.args[1] and F.gate(e) is not FALSE:
                if e.meth in ('operator=', 'clear', 'erase', 'pop_back', 'pop_front', 'assign', 'swap', 'resize', 'setPrimal', 'remove_if', 'splice'):
                    if e.meth == 'setPrimal': chk_imp(F.gate(e), cpx(F.a(e, 1), s.primal), 'search: the incumbent is changed', e)
                    else: raise Bad('search: the bounds given are changed (%s)' % e.name, e)
    r.ob('C14 C12', 'search: the bounds given are changed by solutions only', untouched)
    def callbacks():
        for c in F.calls('Bounds::onSolution'):
            fo = aroot(c.args[1])
            mk_ = [e for e in F.calls('std::function::function') if aroot(e.args[0]) is fo]
            for m in mk_:
                cl = aroot(m.args[1])
                for e in F.events:
                    if e.kind == 'store' and aroot(e.ptr) is cl and isinstance(e.value, T) and e.ty == 'ptr':
                        for _, v in ite_cases(e.value):
                            if aroot(v).op == 'alloca': raise Bad('search: the callback left in the bounds refers to a local variable of the search', e)
    r.ob('C14', 'search: the callback left in the bounds holds no reference to locals of the search', callbacks)

def sretp(F, c): return c.raw[0] if getattr(c, 'raw', None) else c.args[0]
def same_root(x, c):
    return any(z.op in ('call', 'ret', 'sret') or 'computeCutSet' in show(z)[:60] for z in [x])
def occurs_any(F, t, cs, c):
    for x in (t.lo, t.hi, t.cont_obj, getattr(t, 'start', None)):
        if isinstance(x, T) and ('computeCutSet' in show(F.S(x)) or occurs(F.S(x), cs)): return True
    return False
def islocal(F, v, rx, ns):
    return v.op in ('pcall', 'rcall') and v.a[0] == 'AbstractDD::local' and v.a[1] is rx and v.a[2] in ns and len(v.a) > 3 and v.a[3] is const(0)
def domin(F, rx, a, b):
    return atom(mk('pcall', 'AbstractDD::dominates', rx, a, b)) if False else F.g.tobool(mk('pcall', 'AbstractDD::dominates', rx, a, b))
def flagatom(F, ev, t):
    fs = [a for a in atoms_of(F.gate(ev)) if occurs(a, t)]
    return atom(fs[0]) if len(fs) == 1 else FALSE
def reads_after(F, ev, term, call):
    """the raw condition of ev reads `term` only in states after `call`"""
    ma = getattr(call, 'mem_after', None)
    if ma is None: return True
    for g in [ev.gate]:
        for a in atoms_of(g):
            for s in subterms(a):
                if s.op == 'ld' and F.S(s) is term and isinstance(s.a[1], int) and s.a[1] < ma.id: return False
    return True
def domatom(F, t, n, new):
    """'some queued node dominates n with a bound as good', as the summary of the dominance loop"""
    for e, nd, k in new:
        for a in atoms_of(F.gate(e)):
            if a.op == 'some':
                f = a.a[2]
                q = None
                for x in atoms_of(f):
                    if x.op == 'pcall' and x.a[0] == 'AbstractDD::dominates':
                        if x.a[3] is n: q = x.a[2]
                        elif x.a[2] is n: q = None; other = x.a[3]
                if q is None:
                    cs = {u.phi for u in F.loops() if u.kind == 'idx'}
                    if any((x.op in OPAQUE or x.op == 'ld') and x not in cs for y in atoms_of(f) for x in subterms(y)): raise Unk('dominance')
                if q is None: raise Bad('search: a new node is dropped if [%s]' % bshow(f)[:250], e)
                for u in F.loops():          # which queued node: the loop over the queue is understood
                    if u.kind == 'idx' and u.full is not None and u.phi is not None and occurs(q, u.phi):
                        IXQ = mk('i'); f = bsubst(f, lambda z: subst_atom(F.g, z, u.phi, IXQ)); q = subst(F.g, q, u.phi, IXQ)
                want = band(bnot(F.g.better(fld(n, 'bound'), fld(q, 'bound'))), *[atom(x) for x in atoms_of(f) if x.op == 'pcall' and x.a[0] == 'AbstractDD::dominates' and x.a[3] is n])
                chk_imp(f, want, 'search: dropping a dominated node', e)
                return atom(a)
    return FALSE

@rule('C13')
def clone(r):
    for s in SENSES:
        for F in r.fns('dd', r'^DDNodeAllocator<UState, %s<double>\s*>::cloneNode\(' % s[0]):
            ctx = '%s cloneNode' % s[0]
            me, src = F.A(0), F.A(1); nmap = mk('adr', me, 'DDNodeAllocator._nmap')
            def known(F=F, me=me, src=src, nmap=nmap, ctx=ctx):
                g = F.one(F.calls('LHashtable::getLoc', 'LHashtable::get'), 'looking the state up')
                if F.a(g, 0) is not nmap: raise Bad(ctx + ': looked up in %s' % show(F.a(g, 0)), g)
                val(F.a(g, 1), VAL(src), ctx + ': state looked up', g)
                at = F.S(F.g.load(g.mem_after, g.args[2], 8, 'ptr'))
                rs = [(h, v) for h, v in ite_cases(F.sret())]
                fnd = None
                for a in {a for h, v in rs for a in atoms_of(h)}:
                    if a.op == 'exv' and a.a[-1] in (1, (1,)) or a.op == 'bit' : fnd = a
                if fnd is None: raise Unk('found')
                fnd = atom(fnd)
                bet = F.g.better(fld(src, 'bound'), fld(at, 'bound'))
                nul = bor(*[h for h, v in rs if v is NULL])
                chk_imp(nul, band(fnd, bnot(bet)), ctx + ': reporting a known node')
                inst = F.calls('LHashtable::safeInsertAt', 'LHashtable::rawInsertAt')
                ctors = F.calls('Node::Node'); rw = F.calls('Node::resetWith')
                for h, v in rs:
                    if v is NULL: continue
                    # returned node carries the state, bound and labels of src
                    mk_ = FALSE
                    for e in ctors:
                        if F.a(e, 0) is v:
                            if F.a(e, e.argc - 1 if hasattr(e, 'argc') else 3) is not src: raise Bad(ctx + ': new node is a copy of %s' % show(F.a(e, 3)), e)
                            mk_ = bor(mk_, F.gate(e))
                    for e in rw:
                        if F.a(e, 0) is v:
                            val(F.a(e, 1), src, ctx + ': node reset with', e)
                            mk_ = bor(mk_, F.gate(e))
                    chk_at_least(mk_, h, ctx + ': the node returned is a copy of the one given')
                    if satis(band(h, bnot(fnd))):
                        reg = bor(*[band(F.gate(e), gi) for e in inst if F.a(e, 0) is nmap for gi, vi in ite_cases(F.a(e, 2)) if vi is v])
                        chk_at_least(reg, band(h, bnot(fnd)), ctx + ': a new node is remembered')
                    if satis(band(h, fnd)):
                        if v is not at and satis(band(h, fnd)): raise Unk('known state copied')
                for e in inst: chk_imp(F.gate(e), bnot(fnd), ctx + ': entering a new node', e)
            r.ob('C13', ctx + ': every state is queued again when reached with a better bound', known)
    def lpool():
        G = r.fn('dd', r'^LPool::grabId\(', must=False)
        if G:
            t = fld(G.A(0), 'LPool._id')
            s0 = G.one(G.stores('LPool._id'), 'counter'); val(G.val(s0), add(t, const(1)), 'grabId', s0); val(G.retval(), t, 'grabId: id')
        C = r.fn('dd', r'^LPool::claimNode\(', must=False)
        if C:
            em = C.v.SB(C.g.tobool(C.S(C.one(C.calls('std::stack::empty'), 'test').ret)))
            p = C.one(C.calls('std::stack::pop'), 'taking the node out of the free list'); chk(C.gate(p), bnot(em), 'claimNode', p)
    r.ob('C13', 'free nodes are handed out once', lpool)
    def freed():
        # a node the table still knows is handed back by cloneNode when its state turns up again
        for G in r.fns('dd', r'^DDNodeAllocator<UState, .*>::release\('):
            for e in G.live(G.calls('LPool::release', 'std::stack::push', 'std::stack::emplace')):
                if any(c.meth not in ('release', 'push', 'emplace') for c in G.events if c.kind == 'call' and aroot(c.args[0]) is G.g.args[0]): raise Unk('release')
                raise Bad('a closed node goes to the free list while its state is still registered: it can be handed out twice, or overwritten while queued', e)
    r.ob('C13', 'a node is recycled only once its state is forgotten', freed)
