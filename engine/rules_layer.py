"""Layers: merging, queues of layers, width control, dominance, cutset."""
from rules import *
from rules_dd import *
from rules_val import vecloop, nested, full, loopgate

SZ = '_List_node_header._M_size'

@rule('C08', 'C05', 'C10', 'C02')
def merging(r):
    F = r.fn('dd', r'^Relaxed::mergePair\(', must=False)
    if F:
        me, mN, pair = F.A(0), F.A(1), F.A(2); dd = fld(me, 'Strategy._dd'); ctx = 'mergePair'
        def both():
            tas = F.calls('transferArcs')
            if not tas: raise Bad(ctx + ': arcs of the merged nodes are not handed over')
            cov = {}
            for e in tas:
                ts = F.under(e); d = F.a(e, 1)
                val(F.a(e, 2), mN, ctx + ': node that receives the arcs', e)
                if not ts:
                    if not (d.op in ('at', 'fld')): raise Unk('donor')
                    k = 0 if d is fld(pair, 'f0') or d is at(pair, const(0)) else None
                    if d.op == 'at' and isc(d.a[1]): k = d.a[1].a[0]
                    if d.op == 'fld' and d.a[0] is pair and d.a[1] != 'f0': k = 1
                    if k is None: raise Unk('donor %s' % show(d))
                    cov[k] = (e, d)
                    chk(F.gate(e), ne(d, mN), ctx + ': handing over the arcs of a merged node', e)
                else:
                    t = ts[-1]
                    if t.kind not in ('idx', 'ptr') : raise Unk('loop')
                    if t.kind == 'idx':
                        if not (isc(t.lo) and isc(t.hi)): raise Unk('range')
                        lo, hi = sorted((t.lo.a[0], t.hi.a[0]))
                        if not t.full: raise stops(F, t)(ctx + ': the loop over the two nodes may stop early', e)
                        if not (d.op == 'at' and d.a[0] is pair and d.a[1] is t.phi): raise Unk('donor')
                        if t.reverse: raise Unk('reverse')
                        if (lo, hi) != (0, 2): raise Bad(ctx + ': only nodes %d..%d of the pair are handed over' % (lo, hi - 1), e)
                        chk(F.gate(e), ne(d, mN), ctx + ': handing over the arcs of a merged node', e)
                        cov[0] = cov[1] = (e, d)
                    else: raise Unk('pointer loop')
            if set(cov) < {0, 1}: raise Bad(ctx + ': one of the merged nodes keeps its arcs', tas[0])
            for e in F.calls('ANList::remove'):
                d = F.a(e, 1)
                if not any(d is x for _, x in cov.values()): raise Bad(ctx + ': another node is removed from the diagram', e)
                chk(F.gate(e), ne(d, mN), ctx + ': removing a merged node', e)
            if not F.calls('ANList::remove'): raise Bad(ctx + ': merged nodes stay in the diagram')
        r.ob('C08', ctx + ': both merged nodes hand their arcs to the merged node and leave the diagram', both)
        def inexact():
            ss = F.stores('layer', mN)
            if not ss: raise Bad(ctx + ': the merged node is not marked inexact')
            last = [s for s in ss if not any(before(s, x) for x in ss if x is not s)]
            v = F.final(ss[-1].ptr, ss[-1].size, ss[-1].ty)
            chk(exactval(v), FALSE, ctx + ': the merged node counts as exact', ss[-1])
            d = F.stores('ddexact', dd)
            if not d: raise Bad(ctx + ': the diagram still counts as exact after a merge')
            w = F.final(d[-1].ptr, d[-1].size, d[-1].ty)
            val(w, const(0), ctx + ': exactness of the diagram after a merge', d[-1])
        r.ob('C05 C08', ctx + ': merged node and diagram count as inexact', inexact)
        r.ob('C05', ctx + ': what lies below a node that was expanded before it was merged into becomes inexact', lambda: passed_on(F, mN, TRUE, ctx))
        new = cmp_lt0(add(fld(mN, 'parents.size'), const(-1)))
        l0 = LAYER(fld(pair, 'f0')) if True else None
        l0 = bit_and(32, fld(fld(pair, 'f0'), 'layer'), const(0x7fffffff)); lm = LAYER(mN)
        def layer():
            ss = F.stores('layer', mN)
            v = layerval(F.final(ss[-1].ptr, ss[-1].size, ss[-1].ty))
            for g, x in ite_cases(v):
                if x is l0:
                    chk_imp(band(g, bnot(new)), cmp_lt0(add(add(lm, l0, -1), const(-1))), ctx + ': a node already in the diagram moves to an earlier layer')
                elif x is lm:
                    chk_imp(g, band(bnot(new), bnot(cmp_lt0(add(lm, l0, -1)))), ctx + ': the merged node is left in an earlier layer than the nodes it replaces')
                else: raise Unk('layer %s' % show(x))
        r.ob('C10 C08', ctx + ': the merged node is not in an earlier layer than the nodes it replaces', layer)
        def action():
            act = F.sret(8, 4, 'i32')
            node = F.sret()
            val(node, mN, ctx + ': node returned')
            same_ = bor(new, eq(lm, l0))
            isone = None
            cs = ite_cases(act)
            for g, x in cs:
                if not isc(x): raise Unk('action %s' % show(x))
            d = {}
            for g, x in cs: d[x.a[0]] = bor(d.get(x.a[0], FALSE), g)
            known = {0: band(bnot(new), ne(lm, l0))}
            care = bor(new, bnot(cmp_lt0(add(lm, l0, -1))))      # merge refuses nodes of earlier layers
            chk(d.get(0, FALSE), known[0], ctx + ': merged node delayed to a later layer', care=care)
            inf = d.get(1, FALSE)
            chk_at_least(inf, new, ctx + ': a new merged node goes back to the layer')
            # Noop only if it existed before in the layer
            chk_imp(band(d.get(2, FALSE), care), band(bnot(new), eq(lm, l0)), ctx + ': merged node not queued')
            q = [a for a in atoms_of(inf) if a.op == 'some']
            q = [a for a in q if any(x.op == 'eq0' and occurs(x, mN) for x in atoms_of(a.a[2]))]
            if not q:
                if any(opaque(a) or a.op == 'some' or a.op in ('eq0', 'peq') and occurs(a, mN) and not occurs(a, mk('fld', mN, 'layer')) and not occurs(a, fld(mN, 'parents.size')) for a in atoms_of(inf)): raise Unk('membership')
                raise Bad(ctx + ': a merged node that is one of the two it replaces is not put back in the layer')
            s = atom(q[0])
            chk(inf, band(bor(new, eq(lm, l0)), bor(new, s)), ctx + ': merged node put back in the layer', care=care)
        r.ob('C08 C10', ctx + ': the merged node ends up in exactly one place of the queue', action)
        def closed():
            for s in F.stores():
                for _, l in ite_cases(F.lv(s)):
                    if l.op == 'fld' and l.a[1] in ('bound', 'bbound', 'Edge._obj', 'Edge._lbl', 'id', 'root', 'sink', 'parents.size', 'kids.size'): raise Bad('%s writes %s' % (ctx, show(l)), s)
                    if l.op == 'fld' and l.a[1] == 'layer' and l.a[0] is not mN: raise Bad('%s writes %s' % (ctx, show(l)), s)
        r.ob('C08', ctx + ': nothing else changes', closed)
    for F in r.fns('dd', r'Relaxed::mergeOne', must=False): merge_one(r, F)
    for F in r.fns('dd', r'Relaxed::mergeLayer', must=False): merge_layer(r, F)
    lqueue(r)

def passed_on(F, node, need, ctx):
    """under `need` the nodes below `node` lose their exactness (ANode::inexactBelow is decided by exact_below)"""
    cs = [e for e in F.calls('ANode::inexactBelow') if F.a(e, 0) is node]
    need = band(need, bnot(cmp_lt0(add(fld(node, 'kids.size'), const(-1)))))
    if not cs:
        if F.calls('ANode::inexactBelow'): raise Bad(ctx + ': exactness is taken from below another node', F.calls('ANode::inexactBelow')[0])
        if any(t.cont_obj is not None and occurs(t.cont_obj, node) for t in F.loops()): raise Unk('loop over the arcs')
        if any(e.kind == 'call' and not e.pure and not e.const and re.match(r'ANode::|Relaxed::|WidthBounded::|Strategy::|AbstractDD::|DD::', e.name or '') and e.name.split('::')[-1] not in ('transferArcs', 'getLoc', 'remove', 'push_back', 'setLayer', 'setExact', 'initialBest') for e in F.events): raise Unk('another function')
        raise Bad(ctx + ': the nodes below stay exact')
    cov = FALSE
    for e in cs: cov = bor(cov, F.gate(e))
    chk_at_least(cov, need, ctx + ': the nodes below become inexact', cs[0])

@rule('C05')
def exact_below(r):
    F = r.fn('dd', r'^ANode::inexactBelow\(', must=False)
    if not F: return
    me = F.A(0); ctx = 'inexactBelow'
    def go():
        from rules_val import vecloop, full
        ts = vecloop(F, me, 'kids', 'outgoing arcs')
        if len(ts) > 1: raise Unk('several')
        t = ts[0]; full(F, t, 'outgoing arcs'); chk(loopgate(F, t), TRUE, ctx + ': entered')
        to = fld(t.elem, 'Edge._to')
        ss = F.stores('layer')
        if not ss: raise Bad(ctx + ': no node loses its exactness')
        s = F.one([x for x in ss if F.lv(x) is fld(to, 'layer')], 'marking the child')
        if len(ss) > 1: raise Unk('marked elsewhere')
        chk(exactval(F.val(s)), FALSE, ctx + ': the child stays exact', s, care=F.gate(s))
        val(layerval(F.val(s)), LAYER(to), ctx + ': layer of the child', s)
        chk_at_least(F.gate(s), exact(to), ctx + ': marking the child', s)
        c = F.one(F.calls('ANode::inexactBelow'), 'going on below the child')
        val(F.a(c, 0), to, ctx + ': node gone on with', c)
        chk_at_least(F.gate(c), exact(to), ctx + ': going on below the child', c)
        if not before(s, c): raise Bad(ctx + ': goes on before the child is marked', c)
    r.ob('C05', 'inexactBelow: every node below loses its exactness', go)

def merge_one(r, F):
    ctx = 'mergeOne'
    me, layer, skip = F.A(0), F.A(1), F.A(2); dd = fld(me, 'Strategy._dd')
    first = fld(layer, 'f0'); n1 = fld(first, 'val')
    def pairs():
        m = F.one(F.calls('merge'), 'merging')
        a, b = F.a(m, 1), F.a(m, 2)
        if F.a(m, 0) is not dd: raise Bad(ctx + ': merges in another diagram', m)
        ts = F.under(m)
        if not ts: raise Unk('no search for a partner')
        t = ts[-1]
        if {a, b} != {n1, t.elem}:
            kept = [F.val(s) for s in F.events if s.kind == 'store' and t in F.under(s)]
            far = [x for x in (a, b) if x not in (n1, t.elem)]
            if n1 in (a, b) and t.elem in kept and all(x.op == 'fld' and x.a[1] == 'val' and x.a[0].op == 'phi' for x in far):
                raise Bad('%s: the node merged with the first one is %s, the node given up for it is %s' % (ctx, show(far[0]), show(t.elem)), m)
            raise Unk('merged are %s %s' % (show(a), show(b)))
        chk_imp(F.gate(m), eq(LAYER(n1), LAYER(t.elem)), ctx + ': nodes of different layers merged', m)
        mp = F.one(F.calls('mergePair'), 'replacing the merged nodes')
        arr = mp.raw[-1]
        r0, off, idx, path = psplit(arr)
        x0 = F.S(F.g.load(mp.mem, arr, 8, 'ptr')); 
        x1 = None
        for s in F.events:
            if s.kind == 'store' and psplit(s.ptr)[0] is r0 and psplit(s.ptr)[1] == off + 8: x1 = F.S(F.g.load(mp.mem, s.ptr, 8, 'ptr'))
        if x1 is None: raise Unk('second node')
        if x0.op == 'fld' and x0.a[0] is F.S(r0):           # not tracked across the search loop: what is ever written there
            ws = [F.val(s) for s in F.events if s.kind == 'store' and psplit(s.ptr)[0] is r0 and psplit(s.ptr)[1] == off]
            if len(set(ws)) != 1: raise Unk('first node')
            x0 = ws[0]
        val(pick(x0, F.gate(mp)), n1, ctx + ': first merged node', mp)
        ok = False
        for g, v in ite_cases(x1):
            if v is t.elem: ok = True
            elif isc(v) or v.op in ('fld', 'exit', 'ld', 'phi'): pass
            else: raise Bad(ctx + ': second merged node is %s' % show(v), mp)
        if not ok: raise Bad(ctx + ': the second merged node is not the one merged', mp)
        ok = False
        for g, v in ite_cases(F.a(mp, 1)):
            if v is m.ret: ok = True
            elif v.op in ('phi', 'exit'): pass
            elif v in (n1, t.elem): raise Bad(ctx + ': the merged nodes are replaced by %s' % show(v), mp)
            else: raise Unk('merged node')
        if not ok: raise Bad(ctx + ': the merged nodes are not replaced by the result of the merge', mp)
    r.ob('C08', ctx + ': two nodes of the same layer are replaced by their merge', pairs)
    def kept():
        mp = F.one(F.calls('mergePair'), 'replacing the merged nodes')
        G = F.gate(mp)
        er = [e for e in F.calls('erase') if F.a(e, 0) is layer and not F.under(e)]
        er1 = [e for e in er if F.a(e, 1) is first]
        er2 = [e for e in er if F.a(e, 1) is not first]
        pf = [e for e in F.calls('pop_front') if F.a(e, 0) is layer]
        if not er1 and not pf: raise Unk('removal from the layer')
        chk(bor(*[F.gate(e) for e in er1 + pf]), TRUE, ctx + ': taking the first node out of the layer', (er1 + pf)[0])
        pb = [e for e in F.calls('std::__cxx11::list::push_back', 'std::__cxx11::list::push_front') if F.a(e, 0) is skip]
        if not pb: raise Bad(ctx + ': a node that does not merge is lost')
        for e in pb: val(F.a(e, 1), n1, ctx + ': node put aside', e)
        g = bor(*[F.gate(e) for e in pb])
        if not same(bnot(G), g):
            if entails(g, bnot(G)): raise Bad(ctx + ': a node that does not merge may be lost: put aside only if [%s]' % bshow(g)[:300], pb[0])
            if not satis(band(g, G)): pass
            else: raise Bad(ctx + ': a merged node is also put aside', pb[0])
        e2 = F.one(er2, 'taking the second node out')
        if not same(F.gate(e2), G): raise Bad(ctx + ': the second node leaves the layer although it is not merged, or stays although it is', e2)
    r.ob('C08 C10', ctx + ': a node leaves the layer only if it is merged or put aside', kept)
    def back():
        mp = F.one(F.calls('mergePair'), 'replacing')
        G = F.gate(mp); act = mk('cfield', mp.sret if False else None, 8) if False else None
        atoms = set()
        for e in F.calls('push_front', 'push_back'): atoms |= set(atoms_of(F.gate(e)))
        pf = [e for e in F.calls('std::__cxx11::list::push_front', 'std::__cxx11::list::push_back') if F.a(e, 0) is layer]
        if not pf: raise Bad(ctx + ': the merged node does not go back to the layer')
        rv = F.sret()
        code = None
        for _, x in [(g, v) for g, v in ite_cases(rv)]: pass
        cf = [s for a in set().union(*[atoms_of(F.gate(e)) for e in pf]) for s in subterms(a) if s.op == 'cfield']
        if not cf: raise Unk('action')
        c = cf[0]
        for e in pf:
            if not occurs(F.a(e, 1), mp.ret) and F.a(e, 1) is not mp.ret and F.a(e, 1) is not F.a(mp, 1): raise Bad(ctx + ': %s goes back to the layer' % show(F.a(e, 1)), e)
        chk(bor(*[F.gate(e) for e in pf]), band(G, cmp_eq(c, const(1))), ctx + ': merged node goes back to the layer', pf[0], care=theory_enum(c))
        for g, v in ite_cases(rv):
            if isc(v):
                if satis(band(g, G, cmp_eq(c, const(0)))): raise Bad(ctx + ': a merged node that moved to another layer is not reported')
            elif occurs(v, mp.ret) or v is mp.ret: pass
            else: raise Unk('returned %s' % show(v))
    r.ob('C08 C10', ctx + ': the merged node goes back to the layer or is reported', back)
def theory_enum(c):
    a, b, d = (cmp_eq(c, const(k)) for k in (0, 1, 2))
    return band(bnot(band(a, b)), bnot(band(a, d)), bnot(band(b, d)))

def merge_layer(r, F):
    ctx = 'mergeLayer'
    me, layer = F.A(0), F.A(1)
    def go():
        mo = F.one(F.calls('mergeOne'), 'merging')
        ts = F.under(mo)
        if len(ts) != 1: raise Unk('loops')
        val(F.a(mo, 1), layer, ctx + ': layer merged', mo)
        skip = F.a(mo, 2)
        sp = [e for e in F.calls('splice') if F.a(e, 0) is layer and skip in [F.S(x) for x in e.args]]
        if not sp:
            if any(F.a(e, 0) is layer for e in F.calls('merge', 'insert', 'push_back', 'push_front', 'swap')): raise Unk('put back')
            raise Bad(ctx + ': the nodes put aside are lost')
        chk(F.gate(sp[0]), TRUE, ctx + ': the nodes put aside go back to the layer', sp[0])
        if F.under(sp[0]): raise Unk('in the loop')
        if in_mem(sp[0], F.g.loops[ts[0].h].entry_mem): raise Bad(ctx + ': put back too early', sp[0])
        for e in F.calls('clear', 'erase', 'resize', 'remove', 'pop_front', 'pop_back'):
            if F.a(e, 0) in (layer, skip): raise Bad(ctx + ': %s loses nodes' % e.name, e)
        return mo, skip
    r.ob('C08 C10', ctx + ': nodes put aside go back to the layer', go)
    def stops():
        mo = F.one(F.calls('mergeOne'), 'merging'); t = F.under(mo)[0]; skip = F.a(mo, 2)
        tot = add(fld(skip, SZ), fld(layer, SZ))
        narrow = cmp_lt0(add(add(tot, fld(me, 'WidthBounded._mxw'), -1), const(-1)))
        none = cmp_lt0(add(fld(layer, SZ), const(-1)))
        g = bor(*[F.v.SB(eg) for p, s, eg in t.exits])
        chk_imp(g, bor(narrow, none), ctx + ': merging stops although the layer is too wide')
        chk_at_least(g, none, ctx + ': merging goes on in an empty layer')
    r.ob('C08', ctx + ': merging stops only when the layer fits the width or nothing is left to merge', stops)
    def delayed():
        mo = F.one(F.calls('mergeOne'), 'merging')
        cs = F.calls('adjustBounds')
        if not cs:
            fs = [e for e in F.events if e.kind == 'call' and F.under(e) and any(F.S(x) is mo.ret for x in e.args) and e is not mo]
            if fs: raise Unk('handed to ' + fs[0].name)
            x = F.foreign()
            if x: raise Unk('done by %s?' % x)
            raise Bad(ctx + ': a merged node that moved to another layer does not pass its value on', mo)
        c = F.one(cs, 'passing on the value of a merged node that moved')
        if F.under(c) != F.under(mo): raise Unk('loops')
        val(F.a(c, 1), mo.ret, ctx + ': node whose value is passed on', c, care=bnot(isnull(mo.ret)))
        chk(F.gate(c), band(F.gate(mo), bnot(isnull(mo.ret))), ctx + ': handling of a merged node that moved', c)
    r.ob('C08 C02', ctx + ': a merged node that moved to another layer has its value passed on', delayed)

def lqueue(r):
    F = r.fn('dd', r'^LQueue::enQueue\(', must=False)
    if not F: return
    q, n = F.A(0), F.A(1); rest = mk('adr', q, 'LQueue._rest')
    def enq():
        ps = [e for e in F.events if e.kind == 'call' and e.meth in ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'insert') and F.a(e, 0) in (q, rest)]
        if not ps: raise Unk('insertion')
        for e in ps: val(F.a(e, len(e.args) - 1), n, 'enQueue: node queued', e)
        tot = FALSE
        for e in ps:
            if satis(band(tot, F.gate(e))): raise Bad('LQueue::enQueue: a node may be queued twice', e)
            tot = bor(tot, F.gate(e))
        chk(tot, TRUE, 'LQueue::enQueue: queueing a node', ps[0])
        front = fld(fld(q, 'f0'), 'val')
        empty = cmp_lt0(add(fld(q, SZ), const(-1)))
        for e in ps:
            if F.a(e, 0) is q:
                chk_imp(F.gate(e), bor(empty, eq(LAYER(front), LAYER(n))), 'LQueue::enQueue: a node of another layer joins the current one', e)
            else:
                chk_imp(F.gate(e), bnot(empty), 'LQueue::enQueue: the queue of the current layer stays empty', e)
    r.ob('C10', 'LQueue: every queued node is kept exactly once, with its layer', enq)
    def size():
        G = r.fn('dd', r'^LQueue::size\(', must=False)
        if G:
            q = G.A(0)
            val(G.retval(), add(fld(q, SZ), fld(q, SZ + '@24')), 'LQueue::size')
        H = r.fn('dd', r'^LQueue::empty\(')
        g = H.retbool(); q = H.A(0)
        both = cmp_lt0(add(add(fld(q, SZ), fld(q, SZ + '@24')), const(-1)))
        for w in (cmp_eq(rc('LQueue::size', q), const(0)), cmp_lt0(add(rc('LQueue::size', q), const(-1))), both,
                  band(cmp_lt0(add(fld(q, SZ), const(-1))), cmp_lt0(add(fld(q, SZ + '@24'), const(-1)))), cmp_eq0(add(fld(q, SZ), fld(q, SZ + '@24')))):
            if same(g, w): return
        if any(opaque(a) for a in atoms_of(g)): raise Unk('empty')
        raise Bad('LQueue::empty is true if [%s]' % bshow(g)[:300])
    r.ob('C10', 'LQueue: empty only when nothing is left', size)
    P = r.fn('dd', r'^LQueue::pullLayer\[abi:cxx11\]\(\)$|^LQueue::pullLayer\(\)$', must=False)
    if P:
        q = P.A(0); rest = mk('adr', q, 'LQueue._rest'); res = P.g.args[0]
        def pull():
            c = [e for e in P.events if e.kind == 'call' and e.name.startswith('std::__cxx11::list::list') and P.a(e, 0) is P.S(res)]
            if not c or P.a(c[0], 1) is not q: raise Unk('result')
            chk(P.gate(c[0]), TRUE, 'pullLayer: taking the layer', c[0])
            for e in P.calls('pop_front', 'pop_back', 'clear', 'resize', 'remove', 'unique', 'remove_if'):
                if e.meth == 'pop_front' and P.a(e, 0) is rest: continue
                raise Bad('LQueue::pullLayer: %s loses nodes' % e.name, e)
            ps = [e for e in P.calls('push_back', 'push_front') if P.a(e, 0) is q]
            es = [e for e in P.calls('erase') if P.a(e, 0) is rest]
            pf = [e for e in P.calls('pop_front') if P.a(e, 0) is rest]
            if pf and not es:
                p = P.one(ps, 'moving nodes to the current layer'); e = P.one(pf, 'taking nodes from the rest')
                if P.under(p) != P.under(e) or not P.under(p): raise Unk('loops')
                if not same(P.gate(p), P.gate(e)): raise Bad('LQueue::pullLayer: a node is moved twice or lost', p)
                if before(e, p): raise Bad('LQueue::pullLayer: another node is queued than the one removed', p)
                if P.a(p, 1) is not fld(fld(rest, 'f0'), 'val') and P.a(p, 1) is not fld(fld(q, 'LQueue._rest'), 'val'): raise Unk('node moved')
                return
            if not ps and not es and P.calls('splice'): raise Unk('splice')
            p = P.one(ps, 'moving nodes to the current layer'); e = P.one(es, 'taking nodes from the rest')
            if P.under(p) != P.under(e) or not P.under(p): raise Unk('loops')
            if not same(P.gate(p), P.gate(e)): raise Bad('LQueue::pullLayer: a node is moved twice or lost: queued if [%s], removed if [%s]' % (bshow(P.gate(p))[:200], bshow(P.gate(e))[:200]), p)
            if P.a(p, 1) is not fld(P.a(e, 1), 'val'): raise Bad('LQueue::pullLayer: another node is queued than the one removed', p)
            for x in P.calls('erase'):
                if P.a(x, 0) is P.S(res): raise Bad('LQueue::pullLayer: erases from the layer', x)
        r.ob('C10', 'LQueue: pulling a layer loses no node', pull)
        def progress():
            if not P.calls('push_back', 'push_front') and P.calls('splice'): raise Unk('splice')
            p = P.one([e for e in P.calls('push_back', 'push_front') if P.a(e, 0) is q], 'moving')
            if any(P.a(e, 0) is rest for e in P.calls('pop_front')): raise Unk('taken from the front')
            t = P.under(p)[-1]
            nonempty = bnot(cmp_lt0(add(fld(q, SZ + '@24'), const(-1))))
            x = P.a(p, 1); lay = LAYER(x)
            fr = LAYER(fld(fld(rest, 'f0'), 'val'))
            fr2 = [s for a in atoms_of(P.gate(p)) for s in subterms(a) if s.op == 'and' and s is not lay]
            ph = P.g.loops[t.h].phis
            chk_at_least(P.gate(p), band(nonempty, *[eq(lay, f) for f in set(fr2)]), 'pullLayer: moving a node of the next layer', p)
            chk_imp(band(P.gate(p), nonempty), bor(*[eq(lay, f) for f in set(fr2)]) if fr2 else FALSE, 'pullLayer: a node of another layer is moved', p)
            st = [P.S(i) for _, (_, i) in ph.items() if isinstance(i, T)]
            if not any(s is fld(q, 'LQueue._rest') or s is fld(rest, 'f0') or (s.op == 'fld' and 'rest' in s.a[1]) for s in st): raise Unk('start')
        r.ob('C10', 'LQueue: the next layer becomes current', progress)
        def merges():
            m = P.one(P.calls('mergeLayer'), 'merging the layer')
            chk(P.gate(m), TRUE, 'pullLayer: merging the layer', m)
            if P.a(m, 1) is not P.S(res): raise Bad('pullLayer: another layer is merged', m)
        r.ob('C08', 'LQueue: a pulled layer is brought down to the width', merges)

# ------------------------------------------------------- restriction -------
@rule('C09', 'C10', 'C05')
def restriction(r):
    F = r.fn('dd', r'^Restricted::checkDominance\((?!.*::\$_)', must=False)
    def domby(F, dd, o, n, obj): return band(bnot(F.g.better(obj, fld(o, 'bound'))), atom(pc('AbstractDD::dominates', dd, o, n)))
    def dominance(F, dd, n, obj, ctx):
        # whatever is returned dominates n: not null implies both conditions on it
        ss = [s for s in F.events if s.kind == 'store' and s.ptr is F.g.args[0]]
        if not ss: raise Unk('result')
        for s in ss:
            for g, v in ite_cases(F.val(s)):
                gg = band(g, F.gate(s))
                if isc(v): continue
                if v is fld(F.S(F.g.args[0]), 'f0'): continue
                ts = [t for t in F.under(s) if v is t.elem]
                if not ts:
                    if v.op in ('phi', 'exit', 'ite') or any(v is t.elem for t in F.loops()): raise Unk('result %s' % show(v))
                    raise Bad('%s returns %s' % (ctx, show(v)[:200]), s)
                chk_imp(gg, domby(F, dd, v, n, obj), ctx + ': a node is returned that', s)
    if F:
        r.ob('C09 C10', 'Restricted: only a node that dominates and is no worse replaces a new node', dominance, F, fld(F.A(0), 'Strategy._dd'), F.A(2), F.A(3), 'Restricted::checkDominance')
        def inq():
            ts = F.loops()
            if len(ts) != 1: raise Unk('loops')
            if ts[0].kind != 'ring': raise Unk('loop')
            if ts[0].cont_obj is not F.A(1): raise Bad('Restricted::checkDominance looks elsewhere than in the queue')
        r.ob('C09', 'Restricted: the dominating node is one still queued', inq)
    G = r.fn('dd', r'^LQueue::checkDominance\(', must=False)
    if G:
        r.ob('C09 C10', 'Relaxed: only a node that dominates and is no worse replaces a new node', dominance, G, fld(fld(G.A(0), 'LQueue._dd'), 'Strategy._dd'), G.A(1), G.A(2), 'LQueue::checkDominance')
    P = r.fn('dd', r'^WidthBounded::pullLayer\((?!.*::\$_)')
    q = P.A(1); nda = mk('adr', P.A(0), 'WidthBounded._nda')
    def pull():
        ds = P.calls('deQueue'); ps = [e for e in P.calls('push_back') if P.a(e, 0) is nda]
        if not ds: raise Unk('no deQueue')
        for d in ds:
            if P.a(d, 0) is not q: raise Bad('pullLayer: takes from another queue', d)
            k = [p for p in ps if P.a(p, 1) is d.ret and P.under(p) == P.under(d)]
            if not k:
                if any(opaque(P.a(p, 1)) or P.a(p, 1) not in [x.ret for x in ds] for p in ps): raise Unk('push')
                raise Bad('pullLayer: a node taken from the queue is lost', d)
            if len(k) > 1: raise Bad('pullLayer: a node enters the layer twice', k[1])
            if not same(P.gate(k[0]), P.gate(d)): raise Bad('pullLayer: a node taken from the queue may be lost', d)
        for c in P.calls('NDArray::clear'):
            for p in ps:
                if before(p, c): raise Bad('pullLayer: the layer is emptied after it was filled', c)
        cl = [c for c in P.calls('NDArray::clear') if P.a(c, 0) is nda]
        if not cl: raise Bad('pullLayer: the layer still has the nodes of the previous one')
        chk(bor(*[P.gate(c) for c in cl]), TRUE, 'pullLayer: emptying the layer', cl[0])
        for e in P.calls('eraseSuffix', 'erase', 'pop_front', 'retract'): raise Bad('pullLayer: %s loses nodes' % e.name, e)
        rv = P.retval()
        val(rv, nda, 'pullLayer: layer returned')
    r.ob('C10', 'Restricted: pulling a layer loses no node', pull)
    def layers():
        for d in P.calls('deQueue'):
            if not P.under(d): continue
            pk = P.calls('peek')
            p = P.one(pk, 'looking at the next node')
            nx = LAYER(p.ret); g = P.gate(d)
            d0 = [x for x in P.calls('deQueue') if not P.under(x)]
            l0 = [LAYER(x.ret) for x in d0]
            if not l0: raise Unk('first')
            chk_imp(g, eq(nx, l0[0]), 'pullLayer: nodes of another layer', d)
            chk_at_least(g, eq(nx, l0[0]), 'pullLayer: nodes of the same layer', d)
    r.ob('C10 C09', 'Restricted: a layer is made of nodes of the same layer', layers)
    E = r.fn('dd', r'^WidthBounded::estimate\((?!.*::\$_)')
    def est():
        t = E.loops()
        if len(t) != 1: raise Unk('loops')
        t = t[0]
        if t.kind != 'ring': raise Unk('loop')
        if t.cont_obj is not E.A(1): raise Bad('estimate: counts another queue')
        if not t.full: raise stops(E, t)('estimate: counting may stop early')
        pk = E.one(E.calls('peek'), 'the layer')
        v = E.retval()
        if v.op != 'phi': raise Unk('count')
        b = E.S(v.info['back']); i = E.g.loops[t.h].phis[v][1]
        val(E.S(i), const(0), 'estimate: start')
        inl = eq(LAYER(t.elem), LAYER(pk.ret))
        for g, x in ite_cases(b):
            d = add(x, v, -1)
            if d.op == 'b2i': chk(d.a[0], inl, 'estimate: nodes counted'); continue
            if isc(d) and d.a[0] == 1: chk_imp(E.v.SB(constrain(g, t.cont)), inl, 'estimate: nodes counted')
            elif isc(d) and d.a[0] == 0: chk_imp(E.v.SB(constrain(g, t.cont)), bnot(inl), 'estimate: nodes not counted')
            else: raise Bad('estimate: counts by %s' % show(d))
    r.ob('C09', 'Restricted: the width is the number of queued nodes of the layer', est)
    T_ = r.fn('dd', r'^Restricted::truncate\(', must=False)
    if T_:
        dd = fld(T_.A(0), 'Strategy._dd'); lay = T_.A(1)
        def trunc():
            s = T_.stores('ddexact', dd)
            if not s: raise Bad('truncate: the diagram still counts as exact')
            val(T_.final(s[-1].ptr, s[-1].size, s[-1].ty), const(0), 'truncate: exactness of the diagram', s[-1])
        r.ob('C05 C09', 'truncate: the diagram counts as inexact', trunc)
        def drop():
            d = T_.one(T_.calls('ANode::disconnect'), 'disconnecting'); m = T_.one(T_.calls('ANList::remove'), 'removing')
            if len(T_.under(d)) != 1 or T_.under(m) != T_.under(d): raise Unk('loop')
            t = T_.under(d)[0]
            if t.kind != 'subiter' or t.cont_obj is not lay: raise Unk('loop over %s' % t)
            if not t.full: raise stops(T_, t)('truncate: may stop early')
            if T_.a(d, 0) is not t.elem or T_.a(m, 1) is not t.elem: raise Bad('truncate: another node', d)
            chk(T_.gate(d), TRUE, 'truncate: disconnecting', d); chk(T_.gate(m), TRUE, 'truncate: removing', m)
            a = T_.one(T_.calls('NDArray::at'), 'position')
            val(T_.a(a, 1), fld(T_.A(0), 'WidthBounded._mxw'), 'truncate: nodes kept', a)
            T_.one(T_.calls('eraseSuffix'), 'shortening the layer')
        r.ob('C09', 'truncate: everything beyond the width leaves the diagram', drop)

# ------------------------------------------------------------- cutset ------
@rule('C06')
def cutset(r):
    F = r.fn('dd', r'^Relaxed::computeCutSet\(\)')
    dd = fld(F.A(0), 'Strategy._dd'); sink = fld(dd, 'sink'); root = fld(dd, 'root'); st = {}
    def main():
        ds = [t for t in F.loops() if t.kind == 'drain']
        if len(ds) != 1: raise Unk('drain')
        d = ds[0]; q = d.cont_obj
        if not d.full: raise stops(F, d)('cutset: may stop before everything reachable was looked at')
        chk(loopgate(F, d), TRUE, 'cutset: search')
        e = F.one([e for e in F.calls('enQueue') if not F.under(e)], 'starting at the root')
        val(F.a(e, 1), root, 'cutset: start', e); chk(F.gate(e), TRUE, 'cutset: start', e)
        if F.a(e, 0) is not q: raise Bad('cutset: other queue', e)
        c = F.one(F.calls('deQueue'), 'taking a node')
        chk(F.gate(c), TRUE, 'cutset: taking a node', c)
        st['d'] = d; st['cur'] = c.ret; st['q'] = q
    r.ob('C06', 'cutset: looks at everything from the root on', main)
    def mem():
        cur = st['cur']
        ps = [e for e in F.calls('push_back', 'emplace_back') if F.a(e, 0) is F.S(F.g.args[0])]
        p = F.one(ps, 'adding to the cutset')
        val(F.a(p, 1), cur, 'cutset: node added', p)
        if F.under(p) != [st['d']]: raise Unk('loops')
        to = fld(X, 'Edge._to')
        # x.to == sink, ids identify nodes
        f = band(ne(to, sink), bnot(exact(to)))
        want = band(exact(cur), some(cur, 'kids', f))
        st['some'] = some(cur, 'kids', f)
        chk(F.gate(p), want, 'cutset: adding a node', p)
        for c in F.calls('clear', 'pop_back', 'erase', 'resize'):
            if F.a(c, 0) is F.S(F.g.args[0]): raise Bad('cutset: nodes leave the cutset', c)
    r.ob('C06', 'cutset: exactly the reached exact nodes with an inexact child', mem)
    def onlyexact():
        ps = [e for e in F.calls('push_back', 'emplace_back') if F.a(e, 0) is F.S(F.g.args[0])]
        if not ps: raise Unk('adding to the cutset')
        for p in ps:
            g = TRUE
            for _, c in F.levels(p): g = band(g, c)
            chk_imp(g, exact(F.a(p, 1)), 'cutset: adding a node that is not exact', p)
    r.ob('C06', 'cutset: only exact nodes are in it', onlyexact)
    def go():
        cur = st['cur']
        es = [e for e in F.calls('enQueue') if F.under(e)]
        e = F.one(es, 'going on')
        ts = F.under(e)
        if len(ts) != 2: raise Unk('loops')
        t = ts[1]
        if t.kind != 'vec': raise Unk('loop')
        if t.cont_obj is not cur or t.cont_role != 'kids': raise Bad('cutset: goes on with %s of %s' % (t.cont_role, show(t.cont_obj)), e)
        to = fld(t.elem, 'Edge._to')
        val(F.a(e, 1), to, 'cutset: node gone on with', e)
        if not t.full: raise stops(F, t)('cutset: children may be skipped', e)
        marks = [s for s in F.stores() if F.lv(s).op == 'at' and F.under(s) == ts]
        m = F.one(marks, 'marking a node')
        tab = F.lv(m).a[0]
        val(F.lv(m).a[1], fld(to, 'id'), 'cutset: node marked', m); val(F.val(m), const(1), 'cutset: mark', m)
        seen = atom(at(tab, fld(to, 'id')))
        g = F.gate(e); outer = F.levels(e)[1][1]
        z = eq(at(tab, fld(to, 'id')), const(0))          # a mark wider than one bit is tested against zero
        if set(atoms_of(z)) & set(atoms_of(g)): seen = bnot(z)
        S_ = st.get('some', FALSE)
        tot = band(g, outer)
        want = band(exact(cur), bnot(S_), bnot(seen), ne(to, sink))
        if not same(tot, want):
            chk(band(tot, exact(cur), bnot(S_)), want, 'cutset: going on below a node that is not in the cutset', e)
        chk_at_least(F.gate(m), g, 'cutset: marking', m)
        chk_imp(F.gate(m), bor(g, seen), 'cutset: marking', m)
        # table cleared first and root marked
        ms = [x for x in F.events if x.kind == 'set' and F.a(x, 0) is tab]
        ini = [s for s in F.stores() if F.lv(s).op == 'at' and F.lv(s).a[0] is tab and not F.under(s)]
        for s in ini:
            if F.lv(s).a[1] is not fld(root, 'id'): raise Bad('cutset: %s is marked although it was not queued' % show(F.lv(s).a[1]), s)
        if ms:
            nw = [x for x in F.calls('operator_new[]') if x.ret is tab]
            if nw and F.a(ms[0], 2) is not F.a(nw[0], 0): raise Unk('size')
            if not (isc(F.a(ms[0], 1)) and F.a(ms[0], 1).a[0] == 0): raise Bad('cutset: nodes start out marked', ms[0])
            for s in ini:
                if before(s, ms[0]): raise Unk('order')
        else: raise Unk('marks')
        nw = [x for x in F.calls('operator_new[]') if x.ret is tab]
        if nw:
            need = add(F.S(F.one(F.calls('getLastId'), 'the number of ids').ret), const(0))
            d = add(F.a(nw[0], 0), need, -1)
            if isc(d) and d.a[0] < 1: raise Bad('cutset: the marks do not cover every id', nw[0])
    r.ob('C06', 'cutset: goes on below exact nodes whose children are all exact', go)
    def pool():
        mk_ = F.calls('Pool::mark'); cl = F.calls('Pool::clear')
        for c in cl:
            if F.under(c): raise Bad('cutset: pool rolled back in the loop', c)
            if not mk_: raise Unk('mark')
            for e in F.calls('operator_new[]', 'operator_new'):
                if before(e, mk_[0]) : raise Unk('order')
            for e in F.calls('enQueue', 'deQueue'):
                if before(c, e): raise Bad('cutset: the marks are used after their memory was given back', c)
            if 'd' in st and in_mem(c, F.g.loops[st['d'].h].entry_mem): raise Bad('cutset: the marks are given back before the search', c)
    r.ob('C06', 'cutset: scratch memory lives as long as the search', pool)
