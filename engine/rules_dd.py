"""Decision diagrams: nodes, arcs, compilation strategies."""
from rules import *
import rules

def PAR(n): return n
def KIDS(n): return mk('adr', n, 'ANode._children')
def LBL(n): return mk('adr', n, 'labels')
def adrs(n, f): return ite([(g, f(v)) for g, v in ite_cases(n)])
def LAYER(n): return bit_and(32, fld(n, 'layer'), const(0x7fffffff))
def fsum(*ts):
    d = {}
    for t in ts: d[t] = d.get(t, 0) + 1
    return mkflin(0.0, d)
def lfld(n, r): return ite([(g, fld(v, r)) for g, v in ite_cases(n)])

def newest(F, evs, ev):
    """events of evs that ev's memory state includes"""
    return [e for e in evs if before(e, ev)]
def mem_at(F, obj, r, ev):
    """value of field r of obj when ev happens (from the stores of this function)"""
    ss = [e for e in F.stores() if F.lv(e) is fld(obj, r)]
    if not ss: return fld(obj, r)
    e = ss[0]
    return F.S(F.g.load(ev.mem, e.ptr, e.size, e.ty))
def read_after(F, ev, f, term, addev):
    """does the condition f of ev depend on `term` as it is after addev?"""
    ma = getattr(addev, 'mem_after', None)
    if ma is None: return False
    for a in atoms_of(f):
        for s in subterms(a):
            if s.op == 'ld' and F.S(s) is term and isinstance(s.a[1], int) and s.a[1] >= ma.id: return True
    return False
def exactval(t):
    """exact flag (bit 31) of a value written to the layer/exact word"""
    cs = []
    for g, v in ite_cases(t):
        cs.append(band(g, bit31(v)))
    tot = bor(*[g for g, _ in ite_cases(t)])
    return constrain(bor(*cs), tot)
def bit31(v):
    if isc(v): return atomc((v.a[0] >> 31) & 1)
    if v.op == 'or': return bor(*[bit31(x) for x in v.a])
    if v.op == 'and': return band(*[bit31(x) for x in v.a])
    if v.op == 'ite': return exactval(v)
    if v.op == 'shl' and isc(v.a[1]) and v.a[1].a[0] == 31:
        x = v.a[0]
        if x.op == 'b2i': return x.a[0]
        if isc(x): return atomc(x.a[0] & 1)
        if x.op == 'zx': x = x.a[0]
        return atom(mk('bit', x, 0)) if x.op != 'b2i' else x.a[0]
    if v.op == 'not': return bnot(bit31(v.a[0]))
    if v.op == 'b2i': return FALSE
    return atom(mk('bit', v, 31))
def layerval(t):
    """layer (bits 0-30) of a value written to the layer/exact word"""
    return ite([(g, bit_and(32, v, const(0x7fffffff))) for g, v in ite_cases(t)])

# ---------------------------------------------------------------- arcs ------
@rule('C03')
def arcs(r):
    F = r.fn('dd', r'^AbstractDD::addArc\(')
    e = F.A(1)
    def both():
        cs = F.calls('ANode::addArc')
        if not cs: raise Unk('ANode::addArc not used')
        got = {}
        for c in cs:
            if F.a(c, 1) is not e: raise Bad('addArc: another edge than the one given is attached', c)
            if F.under(c): raise Unk('in a loop')
            got[F.a(c, 0)] = bor(got.get(F.a(c, 0), FALSE), F.gate(c))
        for end, nm in ((fld(e, 'f0'), 'origin'), (fld(e, 'Edge._to'), 'destination')):
            if end not in got: raise Bad('addArc: the arc is not attached to its %s' % nm, cs[0])
            chk(got[end], TRUE, 'addArc: attaching to the %s' % nm, cs[0])
    r.ob('C03', 'addArc attaches the arc to both its ends', both)
    G = r.fn('dd', r'^ANode::addArc\(', must=False)
    if G:
        me, e = G.A(0), G.A(1)
        isf = eq(fld(e, 'f0'), me); ist = eq(fld(e, 'Edge._to'), me)
        def side(vec, ix, cond, nm):
            ps = [c for c in G.calls('push_back') if G.a(c, 0) is vec(me)]
            c = G.one(ps, 'attaching to ' + nm)
            if G.a(c, 1) is not e: raise Bad('ANode::addArc: pushes another arc', c)
            chk(G.gate(c), cond, 'ANode::addArc to ' + nm, c, care=bxor(isf, ist))      # called on an end of the arc
            s = G.one(G.stores(ix, e), 'recording the position in ' + nm)
            chk(G.gate(s), cond, 'ANode::addArc: position in ' + nm, s, care=bxor(isf, ist))
            v = G.val(s)
            if v is not c.ret and not (v is fld(me, 'kids.size' if ix == 'Edge._fix' else 'parents.size') and not before(c, s)):
                if v.op == 'trunc' or v.op == 'zx': v = v.a[-1]
                n = fld(me, 'kids.size' if ix == 'Edge._fix' else 'parents.size')
                lds = [x for x in subterms(s.value) if x.op == 'ld' and G.S(x) is n]
                if v is n and lds and not any(sees(G, x, [c]) for x in lds): return          # the size before the arc came
                if v is add(n, const(-1)) and lds and all(sees(G, x, [c]) for x in lds): return
                if v is not c.ret: raise Bad('ANode::addArc: recorded position is %s, not the one the arc got' % show(v), s)
        r.ob('C03', 'arc enters the children of its origin and knows its position', side, KIDS, 'Edge._fix', isf, 'children')
        r.ob('C03', 'arc enters the parents of its destination and knows its position', side, PAR, 'Edge._tix', band(bnot(isf), ist), 'parents')
        def closed():
            for s in G.stores():
                l = G.lv(s)
                if l.op == 'fld' and l.a[1] in ('f0', 'Edge._to', 'Edge._obj', 'Edge._lbl', 'kids.size', 'parents.size', 'bound', 'layer'): raise Bad('ANode::addArc changes %s' % show(l), s)
        r.ob('C03', 'attaching changes nothing else', closed)
    D = r.fn('dd', r'^ANode::disconnect\(\)$')
    me = D.A(0)
    def detach(own, fr, data, size, ix, nm):
        # every arc of `own` leaves the vector at its other end, the arc moved into the hole learns its position
        ts = [t for t in D.loops() if t.kind == 'vec' and t.cont_obj is me and t.cont_role == own]
        if not ts: raise Unk('no traversal of %s' % own)
        if len(ts) > 1: raise Unk('several traversals of %s' % own)
        t = ts[0]
        if not t.full: raise stops(D, t)('disconnect: the traversal of %s may stop early' % own, None)
        E = t.elem; o = fld(E, fr)
        sz = fld(o, size); dt = fld(o, data)
        ev = [e for e in D.stores() if D.under(e) and D.under(e)[-1] is t]
        st_size = [e for e in ev if D.lv(e) is sz]
        s = D.one(st_size, 'shrinking the %s of the neighbour' % nm)
        chk(D.gate(s), TRUE, 'disconnect: shrinking', s); val(D.val(s), add(sz, const(-1)), 'disconnect: size of the neighbour\'s %s' % nm, s)
        w = [e for e in ev if D.lv(e).op == 'at' and D.lv(e).a[0] is dt]
        if not w: raise Unk('no hole filling')
        w = D.one(w, 'filling the hole')
        pos = fld(E, ix)
        def strip(x): return x.a[-1] if x.op in ('trunc', 'zx', 'sx') else x
        if strip(D.lv(w).a[1]) is not pos: raise Bad('disconnect: the hole filled is at %s, the arc is at %s' % (show(D.lv(w).a[1]), show(pos)), w)
        val(D.val(w), at(dt, add(sz, const(-1))), 'disconnect: what fills the hole', w)
        # the moved arc's own index
        ri = [e for e in ev if any(v.op == 'fld' and v.a[1] == ix for _, v in ite_cases(D.lv(e)))]
        if not ri: raise Bad('disconnect: the arc moved in %s does not learn its new position' % nm, w)
        k = ri[0]
        for g, v in ite_cases(D.lv(k)):
            gg = band(g, D.gate(w))
            if gg is FALSE: continue
            if v.a[0] is not at(dt, add(sz, const(-1))) and v.a[0] is not at(dt, D.lv(w).a[1]): raise Bad('disconnect: position recorded in %s' % show(v), k)
        if strip(D.val(k)) is not pos: raise Bad('disconnect: recorded position is %s' % show(D.val(k)), k)
        chk_at_least(D.gate(k), D.gate(w), 'disconnect: recording the moved arc\'s position', k)
        chk_at_least(D.gate(w), atom_lt(D.lv(w).a[1], add(sz, const(-1))), 'disconnect: filling the hole', w)
    def atom_lt(a, b): return cmp_lt0(add(a, b, -1))
    r.ob('C03', 'disconnect takes every incoming arc out of its origin', detach, 'parents', 'f0', 'kids', 'kids.size', 'Edge._fix', 'children')
    r.ob('C03', 'disconnect takes every outgoing arc out of its destination', detach, 'kids', 'Edge._to', 'parents', 'parents.size', 'Edge._tix', 'parents')
    def cleared():
        for vec, nm, sz in ((PAR(me), 'parents', 'parents.size'), (KIDS(me), 'children', 'kids.size')):
            cs = [c for c in D.calls('Vec::clear') if D.a(c, 0) is vec and not D.under(c)]
            ss = [s for s in D.stores(sz, me) if isc(D.val(s)) and D.val(s).a[0] == 0 and not D.under(s)]
            if not cs and not ss: raise Bad('disconnect: the node keeps its %s' % nm)
            chk(bor(*[D.gate(c) for c in cs + ss]), TRUE, 'disconnect: emptying %s' % nm, (cs + ss)[0])
    r.ob('C03', 'a disconnected node has no arcs', cleared)
    def order():
        for c in D.calls('Vec::clear'):
            for t in D.loops():
                if t.kind != 'vec': continue
                vec = PAR(me) if t.cont_role == 'parents' else KIDS(me)
                if D.a(c, 0) is vec and t.cont_obj is me:
                    # the loop must not run after the clear
                    L = D.g.loops[t.h]
                    if in_mem(c, L.entry_mem): raise Bad('disconnect: %s emptied before its arcs are taken out of the neighbours' % t.cont_role, c)
    r.ob('C03', 'arcs are taken out before the vectors are emptied', order)

def sees(F, x, evs):
    """the load x sees the effects of evs"""
    ver = x.a[1]
    if not isinstance(ver, int): return False
    seen = set(); st = [e.mem for e in F.g.events if getattr(e, 'mem', None) is not None] + [L.entry_mem for L in F.g.loops.values() if getattr(L, 'entry_mem', None) is not None]
    while st:
        m = st.pop()
        while m is not None and hasattr(m, 'k') and m.id not in seen:
            seen.add(m.id)
            if m.id == ver: return all(in_mem(e, m) for e in evs)
            if m.k == 'phi': st.extend(y for _, y in m.d['ins'])
            m = m.prev
    return False
def in_mem(ev, mem):
    class _E: pass
    x = _E(); x.mem = mem
    return before(ev, x)

@rule('C03', 'C08')
def transfer(r):
    F = r.fn('dd', r'^Relaxed::transferArcs\(', must=False)
    if not F: return
    don, rec, dd = F.A(1), F.A(2), fld(F.A(0), 'Strategy._dd')
    def side(rl, end, nm):
        ts = [t for t in F.loops() if t.kind == 'vec' and t.cont_obj is don and t.cont_role == rl]
        if not ts:
            if any(t.kind in ('?', 'idx') for t in F.loops()): raise Unk('no recognised traversal of the %s' % rl)
            raise Bad('transferArcs: the %s of the donor are not handed over' % nm)
        if len(ts) > 1: raise Unk('several')
        t = ts[0]
        if not t.full: raise stops(F, t)('transferArcs: handing over the %s may stop early' % nm)
        chk(F.v.SB(F.g.loops[t.h].entry), TRUE, 'transferArcs: handing over the %s' % nm)
        s = F.one([e for e in F.stores(end) if F.lv(e).a[0] is t.elem], 'redirecting the ' + nm)
        chk(F.gate(s), TRUE, 'transferArcs: redirecting', s)
        val(F.val(s), rec, 'transferArcs: new end of the %s' % nm, s)
        cs = [c for c in F.calls('AbstractDD::addArc') if F.a(c, 1) is t.elem and t in F.under(c)]
        ns = [c for c in F.calls('ANode::addArc') if F.a(c, 1) is t.elem and t in F.under(c)]
        if ns and not cs:
            # at which ends is it attached?  disconnecting the donor takes it out of its other end again
            far = fld(t.elem, 'f0' if rl == 'parents' else 'Edge._to')
            ends = {F.a(c, 0) for c in ns}
            near = rec in ends or fld(t.elem, end) in ends
            if not near: raise (Unk('attached to ' + ', '.join(show(x) for x in ends)) if any(opaque(x) for x in ends) else Bad('transferArcs: the %s are not attached to the receiver' % nm, ns[0]))
            if far not in ends and F.calls('ANode::disconnect'): raise Bad('transferArcs: the other end of the %s loses them when the donor is disconnected' % nm, ns[0])
            cs = ns
        else: cs = [F.one(cs + ns, 're-attaching the ' + nm)]
        for c in cs:
            chk(F.gate(c), TRUE, 'transferArcs: re-attaching', c)
            if not before(s, c): raise Bad('transferArcs: re-attached before it is redirected', c)
    r.ob('C08 C03', 'merging hands every incoming arc to the merged node', side, 'parents', 'Edge._to', 'incoming arcs')
    r.ob('C08 C03', 'merging hands every outgoing arc to the merged node', side, 'kids', 'f0', 'outgoing arcs')
    def disc():
        c = F.one([c for c in F.calls('ANode::disconnect') if F.a(c, 0) is don], 'disconnecting the donor')
        if F.under(c): raise Unk('in a loop')
        chk(F.gate(c), TRUE, 'transferArcs: disconnecting the donor', c)
        for t in F.loops():
            if in_mem(c, F.g.loops[t.h].entry_mem): raise Bad('transferArcs: the donor is disconnected before its arcs are handed over', c)
    r.ob('C08 C03', 'the donor is disconnected afterwards', disc)
    def extra():
        for s in F.stores():
            l = F.lv(s)
            if l.op == 'fld' and l.a[1] in ('Edge._obj', 'Edge._lbl', 'bound', 'layer'): raise Bad('transferArcs changes %s' % show(l), s)
    r.ob('C08 C03', 'cost and label of a handed-over arc stay', extra)

# ------------------------------------------------------------ compilation ---
def labels_loop(r, F, tr, p, dd, tags, cls):
    """the innermost loop around the transition must run over exactly the labels of p"""
    ts = F.under(tr)
    t = ts[-1]
    lab = F.a(tr, 3)
    if lab is not t.elem: raise Unk('label of the transition is %s' % show(lab))
    if t.kind not in ('iter',): raise Unk('labels traversed by %s' % t.kind)
    return t

def compile_rules(r, cls):
    F = r.fn('dd', r'^%s::compute\(' % cls)
    N = cls + '::compute'
    me = F.A(0); dd = fld(me, 'Strategy._dd'); bnds = F.A(1)
    trs = F.calls('transition')
    if not trs:
        r.ob('C10', N + ' takes transitions', lambda: (_ for _ in ()).throw(Bad(N + ': no transition is ever taken')))
        return
    if len(trs) > 1:
        r.und.append((N, 'several transition sites')); return
    tr = trs[0]; c = tr.ret
    ts = F.under(tr)
    p, l = F.a(tr, 2), F.a(tr, 3)
    queues = {}
    def nest():
        want = 2 if cls == 'Exact' else 3
        if len(ts) != want: raise Unk('loop nest of depth %d' % len(ts))
        for t in ts:
            if t.kind == '?': raise Unk('loop not recognised')
    r.ob('C10', N + ': shape', nest)
    if len(ts) != (2 if cls == 'Exact' else 3) or any(t.kind == '?' for t in ts): return
    dr, lab = ts[0], ts[-1]; lay = ts[1] if cls != 'Exact' else None
    q = dr.cont_obj
    def queue():
        if dr.kind != 'drain': raise Unk('outer loop is %s' % dr.kind)
        if not dr.full: raise stops(F, dr)('%s: the compilation may stop before the queue is empty' % N)
        chk(F.v.SB(F.g.loops[dr.h].entry), TRUE, N + ': main loop entered')
        roots = [e for e in F.calls('enQueue') if not F.under(e)]
        e = F.one(roots, 'queueing the root')
        if F.a(e, 0) is not q: raise Bad(N + ': root goes to another queue', e)
        ini = F.one(F.calls('init'), 'the root')
        if F.a(e, 1) is not ini.ret: raise Bad(N + ': queues %s instead of the root' % show(F.a(e, 1)), e)
        chk(F.gate(e), TRUE, N + ': queueing the root', e)
    r.ob('C10', N + ': starts from the root and runs until nothing is queued', queue)
    def tgt():
        e = F.one(F.calls('target'), 'making the sink')
        if F.under(e): raise Unk('in a loop')
        chk(F.gate(e), TRUE, N + ': making the sink', e)
        i = F.one(F.calls('init'), 'making the root')
        if before(e, i): raise Bad(N + ': the sink is made before the root', e)
        # both precede the main loop
        if not in_mem(e, F.g.loops[dr.h].entry_mem) or not in_mem(i, F.g.loops[dr.h].entry_mem): raise Bad(N + ': root and sink are not in place when compilation starts', e)
    r.ob('C10 C04', N + ': root and sink exist before anything is expanded', tgt)
    def alltrans():
        lv = F.levels(tr)
        for (t, g), nm in zip(lv[1:], ('each queued node', 'each node of the layer', 'each label') if cls != 'Exact' else ('each queued node', 'each label')):
            chk(g, TRUE, '%s: the transition for %s' % (N, nm), tr)
        if F.a(tr, 0) is not dd or F.a(tr, 1) is not bnds: raise Bad(N + ': transition of another diagram or against other bounds', tr)
    r.ob('C10', N + ': every label of every expanded node is tried', alltrans)
    def node():
        if cls == 'Exact':
            d = F.one(F.calls('deQueue'), 'dequeuing')
            if F.a(d, 0) is not q: raise Bad(N + ': dequeues elsewhere', d)
            chk(F.gate(d), TRUE, N + ': dequeuing', d)
            if p is not d.ret: raise Bad(N + ': expands %s, not the dequeued node' % show(p), tr)
        else:
            pl = F.one(F.calls('pullLayer', 'pullLayer[abi:cxx11]'), 'pulling a layer')
            chk(F.gate(pl), TRUE, N + ': pulling a layer', pl)
            if q not in [F.S(a) for a in pl.args]: raise Bad(N + ': layer pulled from elsewhere', pl)
            if F.under(pl)[-1:] != [dr]: raise Unk('layer pulled elsewhere')
            if p is not lay.elem: raise Unk('node expanded is %s' % show(p))
            src = pl.sret if pl.sret is not None else pl.ret
            if lay.kind not in ('iter', 'list'): raise Unk('layer traversed by %s' % lay.kind)
            if lay.cont_obj is not F.S(src): raise Unk('layer traversed is %s' % show(lay.cont_obj))
            chk(F.v.SB(constrain(F.g.loops[lay.h].entry, dr.cont)), TRUE, N + ': layer traversal')
            if cls == 'Relaxed' and not lay.full: raise stops(F, lay)(N + ': the layer traversal may stop early')
    r.ob('C10', N + ': every queued node is expanded', node)
    def labels():
        if lab.kind != 'iter': raise Unk('labels traversed by %s' % lab.kind)
        if l is not lab.elem: raise Unk('label is %s' % show(l))
        gl = [e for e in F.calls('getLabels') if F.under(e) == ts[:-1]]
        g = F.one(gl, 'the labels of the node')
        if F.a(g, 0) is not dd or F.a(g, 1) is not p: raise Bad('%s: labels of %s tried on %s' % (N, show(F.a(g, 1)), show(p)), g)
        if g.sret is not None and lab.cont_obj is not F.S(g.sret): raise Unk('label set is %s' % show(lab.cont_obj))
        if cls != 'Restricted' and not lab.full: raise stops(F, lab)(N + ': not every label is tried: the traversal may stop early', tr)
        if lab.end_src is None or lab.end_src.meth not in ('end', 'cend'): raise Unk('end of the label traversal')
        if len(lab.incs) != 1: raise Bad(N + ': the label traversal advances %d times per label' % len(lab.incs), tr)
    r.ob('C10', N + ': over all labels of the node', labels)
    # ------- dominance
    hd = [e for e in F.calls('checkDominance')]
    new = cmp_lt0(add(fld(c, 'parents.size'), const(-1)))
    made = bnot(isnull(c))
    DOM = FALSE; dom = None
    if hd:
        k = hd[0]; dom = k.ret
        pre = band(made, atom(pc('AbstractDD::hasDominance', dd)), new, ne(c, fld(dd, 'sink')))
        DOM = band(pre, bnot(isnull(dom)))
    cost = pc('AbstractDD::cost', dd, p, l)
    ep = fsum(fld(p, 'bound'), cost)
    def dominance():
        if not hd: return
        if len(hd) > 1: raise Unk('several dominance tests')
        k = hd[0]
        chk_imp(F.gate(k), band(made, new), N + ': dominance test on a node that is not new', k)
        chk_imp(F.gate(k), ne(c, fld(dd, 'sink')), N + ': dominance test on the sink', k)
        chk_imp(F.gate(k), atom(pc('AbstractDD::hasDominance', dd)), N + ': dominance test without a dominance function', k)
        a = [F.S(x) for x in k.args]
        if c not in a: raise Bad(N + ': dominance test is not about the new node', k)
        if q not in a: raise Bad(N + ': dominance test against another queue', k)
        val(a[-1], ep, N + ': objective the new node is tested with', k)
        pb = F.one(F.calls('ANList::pop_back', 'ANList::remove'), 'dropping the dominated node')
        chk(F.gate(pb), DOM, N + ': dropping a dominated node', pb)
        if pb.meth == 'remove' and F.a(pb, 1) is not c: raise Bad(N + ': drops another node', pb)
    r.ob('C09 C10', N + ': a new node is only replaced by one that dominates it', dominance)
    # ------- arcs
    adds = F.calls('AbstractDD::addArc')
    arcs_ok = len(adds) == 1 and F.under(adds[0]) == ts
    ad = adds[0] if arcs_ok else None
    child = c
    def arcgate():
        if not adds: raise Bad(N + ': no arc is ever added', tr)
        if not arcs_ok: raise Unk('arcs added at several places')
        chk(F.gate(ad), made, N + ': adding the arc of a transition', ad)
        if F.a(ad, 0) is not dd: raise Bad(N + ': arc added to another diagram', ad)
    r.ob('C03 C10', N + ': every transition that yields a node becomes an arc', arcgate)
    if not arcs_ok: return
    e = F.a(ad, 1)
    child = mem_at(F, e, 'Edge._to', ad)
    tags = 'C02 C03 C09' if cls == 'Restricted' else 'C02 C03'
    def arcfields():
        if e.op != 'call': raise Unk('arc is %s' % show(e))
        ne_ = [x for x in F.calls('operator_new') if x.ret is e]
        if ne_ and F.a(ne_[0], len(ne_[0].args) - 1) is not fld(dd, 'AbstractDD._mem'): raise Bad(N + ': the arc is not allocated in the pool of the diagram', ne_[0])
        val(mem_at(F, e, 'f0', ad), p, N + ': origin of the arc', ad)
        val(mem_at(F, e, 'Edge._obj', ad), cost, N + ': cost of the arc', ad)
        val(mem_at(F, e, 'Edge._lbl', ad), l, N + ': label of the arc', ad)
        val(child, [(DOM, dom), (bnot(DOM), c)] if dom is not None else c, N + ': destination of the arc', ad, care=made)
        for s in F.stores():
            lvv = F.lv(s)
            if lvv.op == 'fld' and lvv.a[0] is e and lvv.a[1] in ('f0', 'Edge._to', 'Edge._obj', 'Edge._lbl') and before(ad, s): raise Bad(N + ': the arc changes after it was added', s)
    r.ob(tags, N + ': the arc has the origin, destination, cost and label of the transition', arcfields)
    def costcall():
        for x in F.calls('cost'):
            pass
    # ------- values and labels
    if cls != 'Exact':
        imp = F.g.better(ep, lfld(child, 'bound'))
        def bound():
            ss = [s for s in F.stores() if any(v.op == 'fld' and v.a[1] == 'bound' for _, v in ite_cases(F.lv(s))) and F.under(s) == ts]
            s = F.one(ss, 'updating the value of the node reached')
            val(adrs(F.lv(s), lambda x: x.a[0]), child, N + ': node whose value is updated', s)
            val(F.val(s), ep, N + ': value written', s)
            chk(F.gate(s), band(made, imp), N + ': updating the value', s)
        r.ob('C02', N + ': the value of a node is the best over its arcs', bound)
        def labs():
            cs = [x for x in F.calls('Vec::operator=') if F.under(x) == ts]
            s = F.one(cs, 'copying the labels')
            val(F.a(s, 0), adrs(child, LBL), N + ': node whose labels are set', s); val(F.a(s, 1), LBL(p), N + ': labels copied', s)
            chk(F.gate(s), band(made, imp), N + ': copying the labels', s)
            ps = [x for x in F.calls('Vec::push_back', 'push_back') if F.under(x) == ts and any(v.op == 'adr' and v.a[1] == 'labels' for _, v in ite_cases(F.a(x, 0)))]
            x = F.one(ps, 'adding the label of the arc')
            val(F.a(x, 0), adrs(child, LBL), N + ': node whose labels are extended', x); val(F.a(x, 1), l, N + ': label added', x) if F.a(x, 1) is not fld(e, 'Edge._lbl') else None
            chk(F.gate(x), band(made, imp), N + ': adding the label', x)
            if not before(s, x): raise Bad(N + ': label added before the labels of the parent are copied', x)
        r.ob('C02', N + ': the labels of a node are those of the path its value comes from', labs)
        def late():
            ss = [s for s in F.stores() if any(v.op == 'fld' and v.a[1] == 'bound' for _, v in ite_cases(F.lv(s))) and F.under(s) == ts]
            s = F.one(ss, 'updating the value of the node reached')
            qd = bor(*[F.gate(x) for x in F.calls('enQueue') if F.under(x) == ts])
            again = band(F.gate(s), bnot(new), bnot(DOM), ne(c, fld(dd, 'sink')), bnot(atom(pc('AbstractDD::eqSink', dd, child))))
            if entails(again, qd): return
            if any(not F.under(x) and in_mem_any(x) for x in F.calls('computeBest')): return
            raise Bad('%s: a node that may have been expanded already gets a better value (state reachable at several depths) and its children are not updated' % N, s)
        def in_mem_any(x): return not in_mem(x, F.g.loops[dr.h].entry_mem)
        r.ob('C02', N + ': a value improved after expansion reaches the children', late)
        def layers():
            ss = [s for s in F.stores() if any(v.op == 'fld' and v.a[1] == 'layer' for _, v in ite_cases(F.lv(s)))]
            inl = [s for s in ss if F.under(s) == ts]
            s = F.one(inl, 'setting the layer')
            val(adrs(F.lv(s), lambda x: x.a[0]), child, N + ': node whose layer is set', s)
            chk_imp(F.gate(s), made, N + ': setting the layer', s)
            short = bor(*[band(h, cmp_lt0(add(LAYER(cc), add(LAYER(p), const(1)), -1))) for h, cc in ite_cases(child)])
            chk_at_least(F.gate(s), band(made, short), N + ': setting the layer', s)
            a = [LAYER(x) for _, x in ite_cases(child)]; b = add(LAYER(p), const(1))
            for g, v in ite_cases(layerval(F.val(s))):
                vv = v
                # max(layer(child), layer(p)+1)
                ok = False
                for h, cc in ite_cases(child):
                    gg = band(g, h, F.gate(s))
                    if gg is FALSE: continue
                    lt = cmp_lt0(add(LAYER(cc), b, -1))
                    if vv is LAYER(cc):
                        chk_imp(gg, bnot(lt), N + ': layer of the node reached is kept', s); continue
                    if vv is bit_and(32, b, const(0x7fffffff)) or vv is b:
                        chk_imp(gg, bnot(cmp_lt0(add(b, LAYER(cc), -1))), N + ': layer of the node reached is lowered', s); continue
                    if opaque(vv): raise Unk('layer value')
                    raise Bad('%s: layer of the node reached becomes %s' % (N, show(vv)), s)
            for s in inl:
                for h, cc in ite_cases(child):
                    ex = exactval(pick(F.val(s), h))
                    chk(ex, exact(cc), N + ': setting the layer changes exactness', s, care=band(h, F.gate(s)))
        r.ob('C05 C10', N + ': layers grow along arcs, exactness is kept', layers)
        def rootlayer():
            ini = F.one(F.calls('init'), 'the root')
            ss = [s for s in F.stores('layer', ini.ret) if not F.under(s)]
            s = F.one(ss, 'layer of the root')
            chk(F.gate(s), TRUE, N + ': layer of the root', s)
            val(layerval(F.val(s)), const(0), N + ': layer of the root', s)
            chk(exactval(F.val(s)), exact(ini.ret), N + ': exactness of the root', s)
        r.ob('C10', N + ': the root is in layer 0', rootlayer)
    # ------- queueing
    def enq():
        es = [x for x in F.calls('enQueue') if F.under(x)]
        s = F.one(es, 'queueing new nodes')
        if F.under(s) != ts: raise Unk('queued elsewhere')
        if F.a(s, 0) is not q: raise Bad(N + ': queued elsewhere', s)
        val(F.a(s, 1), child, N + ': node queued', s, care=F.gate(s))
        sink = None
        for x in F.calls('eqSink'):
            val(F.a(x, 1), child, N + ': sink test', x, care=F.gate(x))
        eqs = pc('AbstractDD::eqSink', dd, child)
        want = band(made, new, bnot(DOM), bnot(atom(eqs)))
        alt = band(made, new, bnot(DOM), bnot(atom(pc('AbstractDD::eqSink', dd, c))))
        alt2 = band(made, new, bnot(DOM), ne(c, fld(dd, 'sink')))
        g = F.gate(s)
        if same(g, alt) or same(g, alt2): pass
        else: chk(g, want, N + ': queueing the node reached', s)
        if read_after(F, s, F.v.rawgate(s), fld(c, 'parents.size'), ad): raise Bad(N + ': whether the node is new is decided after the arc was added', s)
    r.ob('C10', N + ': every new node that is not the sink is queued once', enq)
    # ------- exactness of the diagram
    def ddex():
        ss = F.stores('ddexact', dd)
        pre = [s for s in ss if not F.under(s)]; inl = [s for s in ss if F.under(s)]
        if not pre: raise Bad(N + ': the diagram is not marked exact to start with')
        last = pre[0]
        if len(pre) > 1: raise Unk('several')
        chk(F.gate(last), TRUE, N + ': marking the diagram exact', last)
        val(F.val(last), const(1), N + ': initial exactness', last)
        if not in_mem(last, F.g.loops[dr.h].entry_mem): raise Bad(N + ': the diagram is marked exact after compilation', last)
        if cls != 'Restricted':
            for s in inl:
                if not (isc(F.val(s)) and F.val(s).a[0] == 0): raise Bad(N + ': marked exact during compilation', s)
                raise Unk('marked inexact in compute')
            return
        for s in inl: val(F.val(s), const(0), N + ': exactness written during compilation', s)
        # leaving a traversal early must be accompanied by inexactness
        early = []
        for t in (lay, lab):
            for eg, (pp, sss, _) in zip(F.v.early_conds(t), t.early): early.append((t, eg, pp))
        if not any(t.early for t in (lab,)):
            if not lay.early:
                return
        g = bor(*[F.gate(s) for s in inl if F.under(s) == ts])
        oth = [s for s in inl if F.under(s) != ts]
        for t, eg, pp in early:
            if oth and not rules.entails(eg, g):
                # decided by whoever called the expansion of a node: it must look at what the expansion tells
                for s in oth:
                    for a in atoms_of(F.gate(s)):
                        if a.op == 'some' and rules.entails(eg, a.a[2]) and implies(atom(a), F.gate(s)): break
                    else: continue
                    break
                else: raise Unk('marked outside of the expansion of a node')
                continue
            if t is lab: chk_imp(eg, g, N + ': nodes are dropped without marking the diagram inexact', tr)
    r.ob('C05 C09' if cls == 'Restricted' else 'C05', N + ': the diagram is exact unless something was dropped or merged', ddex)
    if cls == 'Restricted':
        def width():
            est = F.calls('estimate')
            if not lab.early and not lay.early and lab.full and lay.full:
                if F.calls('truncate'): raise Unk('truncate')
                raise Unk('no width limit')
            ex = F.one(est, 'counting the layer')
            if q not in [F.S(a) for a in ex.args]: raise Bad(N + ': counts another queue', ex)
            for g in F.v.early_conds(lab):
                lim = cmp_lt0(add(F.S(ex.ret), fld(me, 'WidthBounded._mxw'), -1))      # count < width
                chk_imp(g, bnot(lim), N + ': expansion stops below the maximal width', ex)
            if lab.early: chk_at_least(bor(*F.v.early_conds(lab)), band(F.gate(ex), bnot(lim)), N + ': stopping at the maximal width', ex)
        r.ob('C09', N + ': expansion of a layer only stops at the maximal width', width)
    def tail():
        if cls == 'Exact':
            x = F.one(F.calls('computeBest'), 'computing the values')
            if F.a(x, 0) is not dd: raise Bad(N + ': computeBest of another diagram', x)
        else:
            x = F.one(F.calls('tighten'), 'the value of the sink')
            val(F.a(x, 1), fld(dd, 'sink'), N + ': node tightened', x)
        if F.under(x): raise Unk('in a loop')
        chk(F.gate(x), TRUE, N + ': final values', x)
        if in_mem(x, F.g.loops[dr.h].entry_mem): raise Bad(N + ': values are computed before the diagram', x)
    r.ob('C02', N + ': the value of the sink is computed at the end', tail)
    if cls == 'Relaxed':
        def back():
            x = F.one(F.calls('computeBestBackward'), 'the backward bounds')
            if F.under(x): raise Unk('in a loop')
            if F.a(x, 0) is not dd: raise Bad(N + ': of another diagram', x)
            chk(F.gate(x), TRUE, N + ': backward bounds', x)
            if in_mem(x, F.g.loops[dr.h].entry_mem): raise Bad(N + ': backward bounds before the diagram is there', x)
        r.ob('C11', N + ': backward bounds are computed on the finished diagram', back)
    def closed():
        for x in F.calls('ANode::disconnect', 'ANList::remove', 'ANList::clear', 'ANode::reset', 'Pool::clear'):
            if x.name == 'ANList::remove' and hd and F.a(x, 1) is c: continue
            raise Unk('%s in %s' % (x.name, N))
        for s in F.stores():
            for _, lvv in ite_cases(F.lv(s)):
                if lvv.op == 'fld' and lvv.a[1] in ('bbound', 'parents.size', 'kids.size', 'id', 'root', 'sink'): raise Bad('%s writes %s' % (N, show(lvv)), s)
    r.ob('C10', N + ': nothing else touches the diagram', closed)

@rule('C02', 'C03', 'C04', 'C05', 'C09', 'C10', 'C11')
def compilation(r):
    for c in ('Exact', 'Restricted', 'Relaxed'): compile_rules(r, c)
