"""Values, labels, backward bounds: longest/shortest path computations over a diagram."""
from rules import *
from rules_dd import *

def running(F, t, cand, target=None):
    """the running best of loop t over candidates `cand`: returns (current value term, update gate, initial value, event or None).
    Either a loop-carried variable or the field `target` itself"""
    L = F.g.loops[t.h]
    found = []
    for phi, (ins, init) in L.phis.items():
        if not isinstance(phi, T): continue
        back = phi.info.get('back')
        if back is None: continue
        cs = [(F.v.SB(constrain(g, t.cont)), F.S(v)) for g, v in ite_cases(back)]
        if any(v is cand for _, v in cs): found.append((phi, cs, F.S(init)))
    if len(found) > 1: raise Unk('several running values')
    if found:
        phi, cs, init = found[0]
        upd = bor(*[g for g, v in cs if v is cand])
        for g, v in cs:
            if v is not cand and v is not phi:
                if opaque(v): raise Unk('running value')
                raise Bad('%s: the running best becomes %s' % (F.name, show(v)[:200]))
        return phi, upd, init, None
    if target is not None:
        ss = [s for s in F.stores() if F.lv(s) is target and t in F.under(s)]
        if len(ss) == 1: 
            if F.under(ss[0])[-1] is not t: raise Unk('nested')
            val(F.val(ss[0]), cand, '%s: value written' % F.name, ss[0])
            pre = None
            return target, F.gate(ss[0]), pre, ss[0]
        if len(ss) > 1: raise Unk('several')
    return None

def vecloop(F, obj, rl, what, within=None, elem=None):
    ts = [t for t in F.loops() if t.kind == 'vec' and t.cont_obj is obj and t.cont_role == rl]
    if within is not None: ts = [t for t in ts if nested(F, t, within)]
    if not ts:
        if any(t.kind in ('?', 'idx', 'ptr') for t in F.loops()): raise Unk('%s: no recognised traversal of the %s' % (F.name, rl))
        raise Bad('%s: the %s are not gone through' % (F.name, what))
    return ts
def nested(F, t, outer): return outer.h in F.g.chain(t.h) and t.h != outer.h
def full(F, t, what):
    if not t.full: raise stops(F, t)('%s: going through the %s may stop early' % (F.name, what))
def loopgate(F, t, within=None):
    g = F.g.loops[t.h].entry
    if within is not None: g = constrain(g, within.cont)
    return F.v.SB(g)

def path_labels_after(F, t, node, src, lbl, upd, ctx):
    """the traversal remembers the arc of the last improvement, the labels are set after it"""
    for phi in F.g.loops[t.h].phis:
        if not isinstance(phi, T) or phi.info.get('back') is None: continue
        kept = [(F.v.SB(g), F.S(v)) for g, v in ite_cases(phi.info['back'])]
        p = F.S(phi)
        if not any(v is t.elem for _, v in kept): continue
        if any(v is not t.elem and v is not p for _, v in kept): raise Unk('remembered arc')
        out = [o for o in F.loops() if nested(F, t, o)]
        def here(x): return {o.h for o in F.under(x)} == {o.h for o in out}
        eqs = [x for x in F.calls('Vec::operator=') if here(x) and F.a(x, 0) is LBL(node)]
        if not eqs: continue
        chk(bor(*[g for g, v in kept if v is t.elem]), upd, ctx + ': remembering the arc')
        val(F.S(phi.info['init']), NULL, ctx + ': arc to start from')
        there = ne(p, NULL)
        def sub(x): return subst(F.g, x, t.elem, p)
        x = F.one(eqs, 'copying the labels')
        val(F.a(x, 1), LBL(sub(src)), ctx + ': labels copied', x, care=there)
        chk(F.gate(x), there, ctx + ': copying the labels', x)
        y = F.one([y for y in F.calls('Vec::push_back') if here(y) and F.a(y, 0) is LBL(node)], 'adding the label of the arc')
        val(F.a(y, 1), sub(lbl), ctx + ': label added', y, care=there)
        chk(F.gate(y), there, ctx + ': adding the label', y)
        if not before(x, y): raise Bad(ctx + ': the label is added before the labels of the parent are copied', y)
        for z in F.calls('Vec::clear', 'Vec::pop_back'):
            if F.a(z, 0) is LBL(node): raise Unk('labels also changed by ' + z.name)
        return True
    return False

def path_labels(F, t, node, src, lbl, upd, ctx):
    """labels of node := labels of src + lbl, exactly when the value is improved"""
    eqs = [x for x in F.calls('Vec::operator=') if t in F.under(x) and any(v is LBL(node) for _, v in ite_cases(F.a(x, 0)))]
    if not eqs and path_labels_after(F, t, node, src, lbl, upd, ctx): return
    s = F.one(eqs, 'copying the labels')
    if F.a(s, 0) is not LBL(node): raise Unk('labels target')
    val(F.a(s, 1), LBL(src), ctx + ': labels copied', s)
    chk(F.gate(s), upd, ctx + ': copying the labels', s)
    ps = [x for x in F.calls('Vec::push_back') if t in F.under(x) and F.a(x, 0) is LBL(node)]
    x = F.one(ps, 'adding the label of the arc')
    val(F.a(x, 1), lbl, ctx + ': label added', x)
    chk(F.gate(x), upd, ctx + ': adding the label', x)
    if not before(s, x): raise Bad(ctx + ': the label is added before the labels of the parent are copied', x)
    for y in F.calls('Vec::clear', 'Vec::pop_back'):
        if F.a(y, 0) is LBL(node): raise Unk('labels also changed by ' + y.name)

def no_other_writes(F, node_ok, roles, ctx):
    for s in F.stores():
        for _, l in ite_cases(F.lv(s)):
            if l.op == 'fld' and l.a[1] in roles and not node_ok(l): raise Bad('%s writes %s' % (ctx, show(l)[:200]), s)

def best_value(F, node, t, par, other, fieldr, init_exp, ctx, care=TRUE, alt=None):
    """the value of `node` becomes the best over traversal t of (neighbour value + arc cost)"""
    E = t.elem
    nb = fld(E, 'f0') if par else fld(E, 'Edge._to')
    cand = fsum(fld(nb, fieldr), fld(E, 'Edge._obj'))
    full(F, t, 'parents' if par else 'children')
    rr = running(F, t, cand, fld(node, fieldr))
    if rr is None:
        # another candidate expression?
        for phi, (ins, init) in F.g.loops[t.h].phis.items():
            if isinstance(phi, T) and phi.info.get('back') is not None:
                for g, v in ite_cases(phi.info['back']):
                    v = F.S(v)
                    if v is not phi and v.op == 'flin' and any(x.op == 'fld' and x.a[1] in ('bound', 'bbound', 'Edge._obj') for x in subterms(v)):
                        raise Bad('%s: value through an arc is taken as %s, should be %s' % (ctx, show(v)[:200], show(cand)[:200]))
        raise Unk('%s: no running best' % ctx)
    cur, upd, init, ev = rr
    chk_between(upd, F.g.better(cand, cur), bnot(F.g.better(cur, cand)), ctx + ': keeping the better value', ev)
    if init is not None:
        care = band(care, loopgate(F, t))
        care = band(care, bnot(bor(*[g for g, v in ite_cases(init) if v is alt])))
        val(init, init_exp, ctx + ': value to start from', ev, care=care)
        ss = [s for s in F.stores() if F.lv(s) is fld(node, fieldr) and in_mem_loop(F, t, s)]
        s = F.one(ss, 'storing the value')
        v = F.val(s)
        if v is not cur: 
            if opaque(v): raise Unk('value stored is %s' % show(v))
            raise Bad('%s: value stored is %s' % (ctx, show(v)[:200]), s)
        return cand, cur, upd, s
    else:
        pre = [s for s in F.stores() if F.lv(s) is fld(node, fieldr) and t not in F.under(s) and in_mem(s, F.g.loops[t.h].entry_mem)]
        if not pre:
            v = fld(node, fieldr)
        else:
            v = F.S(F.g.load(F.g.loops[t.h].entry_mem, pre[-1].ptr, pre[-1].size, pre[-1].ty))
        val(v, init_exp, ctx + ': value to start from', care=care)
        return cand, cur, upd, None
def in_mem_loop(F, t, s):
    """s happens after loop t (not inside it)"""
    return t not in F.under(s) and not in_mem(s, F.g.loops[t.h].entry_mem)

@rule('C02')
def tighten(r):
    F = r.fn('dd', r'^WidthBounded::tighten\(')
    nd = F.A(1); dd = fld(F.A(0), 'Strategy._dd')
    ctx = 'tighten'
    ib = rc('AbstractDD::initialBest', dd)
    def value():
        ts = vecloop(F, nd, 'parents', 'incoming arcs')
        if len(ts) > 1: raise Unk('several traversals')
        t = ts[0]
        none = cmp_lt0(add(fld(nd, 'parents.size'), const(-1)))
        sink = eq(nd, fld(dd, 'sink'))
        keep = band(none, bnot(sink))
        cand, cur, upd, s = best_value(F, nd, t, True, None, 'bound', [(keep, fld(nd, 'bound')), (bnot(keep), ib2(F, dd))], ctx)
        chk_at_least(loopgate(F, t), bnot(keep), ctx + ': looking at the incoming arcs', s)
        if s is not None: chk_at_least(F.gate(s), bnot(keep), ctx + ': storing the value', s)
        path_labels(F, t, nd, fld(t.elem, 'f0'), fld(t.elem, 'Edge._lbl'), upd, ctx)
        no_other_writes(F, lambda l: l.a[0] is nd and l.a[1] == 'bound', ('bound', 'bbound', 'Edge._obj', 'Edge._lbl', 'layer'), ctx)
    r.ob('C02', 'tighten: value and labels of a node are those of its best incoming arc', value)

def ib2(F, dd):
    for e in F.calls('initialBest'):
        if F.a(e, 0) is dd: return F.S(e.ret)
    return pc('AbstractDD::initialBest', dd)

@rule('C02')
def adjust(r):
    F = r.fn('dd', r'^Relaxed::adjustBounds\(', must=False)
    if not F: return
    nd = F.A(1); ctx = 'adjustBounds'
    def go():
        ts = vecloop(F, nd, 'kids', 'outgoing arcs')
        if len(ts) > 1: raise Unk('several')
        t = ts[0]; full(F, t, 'outgoing arcs'); chk(loopgate(F, t), TRUE, ctx + ': entered')
        to = fld(t.elem, 'Edge._to'); ep = fsum(fld(nd, 'bound'), fld(t.elem, 'Edge._obj'))
        s = F.one([s for s in F.stores() if F.lv(s) is fld(to, 'bound')], 'raising the value')
        val(F.val(s), ep, ctx + ': value written', s)
        imp = F.g.better(ep, fld(to, 'bound'))
        chk(F.gate(s), imp, ctx + ': updating the value', s)
        path_labels(F, t, to, nd, fld(t.elem, 'Edge._lbl'), imp, ctx)
        c = F.one(F.calls('adjustBounds'), 'going on with the node improved')
        val(F.a(c, 1), to, ctx + ': node gone on with', c)
        chk_at_least(F.gate(c), imp, ctx + ': going on', c)
        if not before(s, c): raise Bad(ctx + ': goes on before the value is updated', c)
        for x in F.calls('Vec::push_back', 'Vec::operator='):
            if F.a(x, 0) is LBL(to) and not before(x, c): raise Bad(ctx + ': goes on before the labels are updated', c)
        no_other_writes(F, lambda l: l.a[0] is to and l.a[1] == 'bound', ('bound', 'bbound', 'Edge._obj', 'Edge._lbl', 'layer'), ctx)
    r.ob('C02', 'adjustBounds: an improved node improves everything below it, values and labels together', go)

def best_rules(r, nm, tag, fieldr, par):
    F = r.fn('dd', r'^AbstractDD::%s\((?!.*::\$_)' % nm)
    me = F.A(0); ctx = nm
    rolep, rolek = ('parents', 'kids') if par else ('kids', 'parents')
    st = {}
    def seeding():
        ds = [t for t in F.loops() if t.kind == 'drain' and t.cont_role.startswith('Heap')]
        if len(ds) != 1: raise Unk('heap loop')
        d = ds[0]; st['d'] = d; h = d.cont_obj
        if not d.full: raise stops(F, d)(ctx + ': may stop before every node had its turn')
        ins = F.one([e for e in F.calls('Heap::insert', 'Heap::insertHeap') if F.a(e, 0) is h], 'queueing the nodes')
        ts = F.under(ins)
        if len(ts) != 1 or ts[0].kind != 'chain' or ts[0].cont_obj is not fld(me, 'AbstractDD._an'): raise Unk('nodes queued by %s' % ts)
        t = ts[0]; n = t.elem; st['n'] = t
        full(F, t, 'nodes of the diagram'); chk(loopgate(F, t), TRUE, ctx + ': queueing'); chk(F.gate(ins), TRUE, ctx + ': queueing a node', ins)
        arg = ins.args[1]
        if arg.op == 'alloca':
            node = F.S(F.g.load(ins.mem, arg, 8, 'ptr'))
            deg = None
            for s in F.events:
                if s.kind == 'store' and psplit(s.ptr)[0] is arg and psplit(s.ptr)[1] == 8: deg = F.S(F.g.load(ins.mem, s.ptr, s.size, s.ty))
            if node is not n: raise Bad(ctx + ': queues %s' % show(node), ins)
            if deg is None: raise Unk('degree')
            val(deg, fld(n, rolep + '.size'), ctx + ': number of neighbours a node has to wait for', ins)
        w = [s for s in F.stores() if F.lv(s).op == 'at' and t in F.under(s)]
        w = F.one(w, 'remembering where a node is queued')
        st['tab'] = F.lv(w).a[0]
        if F.lv(w).a[1] is not fld(n, 'id'): raise Bad(ctx + ': location remembered under %s' % show(F.lv(w).a[1]), w)
        val(F.val(w), ins.ret, ctx + ': location remembered', w); chk(F.gate(w), TRUE, ctx + ': remembering the location', w)
        # lambda: fewest pending neighbours first
    r.ob(tag, ctx + ': every node waits for all its %s' % rolep, seeding)
    def sizes():
        # the table of locations covers every id
        w = [s for s in F.stores() if F.lv(s).op == 'at' and len(F.under(s)) == 1]
        w = F.one(w, 'location table')
        tab = F.lv(w).a[0]
        n = [e for e in F.calls('operator_new[]') if e.ret is tab]
        if not n: raise Unk('table')
        sz = n[0].args[0]
        cs = [F.S(v) for g, v in ite_cases(sz)]
        ph = {x for v in cs for x in subterms(v) if x.op == 'phi'}
        ok = False
        for p in ph:
            for h, L in F.g.loops.items():
                if p in L.phis:
                    t = F.v.trav[h]
                    if t.kind != 'chain' or t.cont_obj is not fld(me, 'AbstractDD._an'): raise Unk('id loop')
                    full(F, t, 'nodes (largest id)')
                    for g, v in ite_cases(p.info['back']):
                        v = F.S(v); g = F.v.SB(constrain(g, t.cont))
                        if v is p: chk_imp(g, bnot(cmp_lt0(add(p, fld(t.elem, 'id'), -1))), ctx + ': largest id')
                        elif v is not fld(t.elem, 'id'): raise Unk('max')
                    ok = True
                    for c in cs:
                        for s in subterms(c):
                            if s.op == 'lin' and any(x is p for x, _ in s.a[1]):
                                k, d = lin_of(s)
                                if len(d) == 1 and abs(d[p]) == 1 and k < 1: raise Bad(ctx + ': the table of locations is too small for the largest id', n[0])
                    if any(c is p or (c.op == 'lin' and lin_of(c)[0] == 0) for c in cs if not isc(c)): raise Bad(ctx + ': the table of locations is too small for the largest id', n[0])
        if not ok: raise Unk('size of the table')
    r.ob(tag, ctx + ': the location table covers every node id', sizes)
    def order():
        fs = r.fns('dd', r'^AbstractDD::%s\(.*::\$_\d+::operator\(\)\(' % nm, must=False)
        fs = [f for f in fs if 'DNode' in f.dem]
        if len(fs) != 1: raise Unk('comparators')
        g = fs[0]
        a, b = g.g.args[-2], g.g.args[-1]
        chk(g.retbool(), cmp_lt0(add(fld(a, 'DNode.degree'), fld(b, 'DNode.degree'), -1)), ctx + ': the node taken next is the one with fewest pending neighbours')
    r.ob(tag, ctx + ': nodes without pending neighbours go first', order)
    def node_of(F, x):
        # the node in the extracted DNode
        for t in F.loops():
            if t.kind == 'vec' and st['d'].h in F.g.chain(t.h): 
                if not occurs(t.cont_obj, x.ret): raise Bad(ctx + ': works on another node than the one taken', x)
                return t.cont_obj
        raise Unk('node taken')
    def extract():
        d = st['d']; h = d.cont_obj
        x = F.one([e for e in F.calls('Heap::extractMax') if F.a(e, 0) is h], 'taking a node')
        if F.under(x) != [d]: raise Unk('extract')
        chk(F.gate(x), TRUE, ctx + ': taking a node', x)
        b = F.one([e for e in F.calls('Heap::buildHeap') if F.a(e, 0) is h], 'ordering the queue')
        chk(F.gate(b), TRUE, ctx + ': ordering the queue', b)
        if not in_mem(b, F.g.loops[d.h].entry_mem): raise Bad(ctx + ': queue ordered too late', b)
        ins = F.one([e for e in F.calls('Heap::insert')], 'insert')
        if in_mem(b, F.g.loops[st['n'].h].entry_mem): raise Bad(ctx + ': queue ordered before it is filled', b)
        st['x'] = node_of(F, x)
    r.ob(tag, ctx + ': nodes are taken in order', extract)
    def init():
        t = st['n']; n = t.elem
        special = fld(me, 'root') if par else fld(me, 'sink')
        ss = [s for s in F.stores() if F.lv(s) is fld(n, fieldr) and t in F.under(s)]
        ib = ib2(F, me)
        if par:
            s = F.one(ss, 'resetting the values')
            keepg = bor(*[g for g, v in ite_cases(F.val(s)) if v is fld(n, fieldr)])
            # a node other than the root without parents does not occur
            chk(band(F.gate(s), bnot(keepg)), ne(n, special), ctx + ': resetting the value of a node', s, care=bnot(cmp_lt0(add(fld(n, 'parents.size'), const(-1)))))
            val(F.val(s), ib, ctx + ': reset value', s, care=bnot(keepg))
        else:
            if not ss:
                # a traversal of its own before the nodes are taken
                for t2 in F.loops():
                    if t2 is t or t2.kind != t.kind or t2.cont_obj is not t.cont_obj or t2.cont_role != t.cont_role: continue
                    ss2 = [s for s in F.stores() if F.lv(s) is fld(t2.elem, fieldr) and F.under(s) == [t2]]
                    if ss2 and loop_before(t2.h, F.g.loops[st['d'].h].entry_mem): t, n, ss = t2, t2.elem, ss2; full(F, t, 'nodes'); chk(loopgate(F, t), TRUE, ctx + ': start values'); break
            if not ss: raise Bad(ctx + ': values are not reset')
            for s in ss:
                for g, v in ite_cases(F.val(s)):
                    gg = band(g, F.gate(s))
                    val(v, [(eq(n, special), mk('fc', 0.0)), (ne(n, special), ib)], ctx + ': start value', s, care=gg)
            chk(bor(*[F.gate(s) for s in ss]), TRUE, ctx + ': start values', ss[0])
    r.ob(tag, ctx + ': start values', init)
    def value():
        d = st['d']; n = st['x']
        ts = vecloop(F, n, rolep, rolep, within=d)
        if len(ts) > 1: raise Unk('several')
        t = ts[0]
        none = cmp_lt0(add(fld(n, rolep + '.size'), const(-1)))
        cand, cur, upd, s = best_value(F, n, t, par, None, fieldr, [(none, fld(n, fieldr)), (bnot(none), ib2(F, me))], ctx, alt=fld(n, fieldr))
        if s is not None: chk_at_least(F.gate(s), bnot(none), ctx + ': storing the value', s)
        if par: path_labels(F, t, n, fld(t.elem, 'f0'), fld(t.elem, 'Edge._lbl'), upd, ctx)
    r.ob(tag, ctx + ': the value of a node is the best over its %s' % rolep, value)
    def dec():
        d = st['d']; n = st['x']
        t = [t for t in vecloop(F, n, rolek, rolek, within=d)]
        ds = [e for e in F.calls('Heap::decrease')]
        e = F.one(ds, 'releasing the neighbours')
        if F.under(e) != [d, t[0]] and not (len(F.under(e)) == 2 and F.under(e)[1] in t): raise Unk('release loop')
        tt = F.under(e)[1]
        full(F, tt, rolek); chk(F.levels(e)[1][1], TRUE, ctx + ': releasing the neighbours', e); chk(F.gate(e), TRUE, ctx + ': releasing a neighbour', e)
        nb = fld(tt.elem, 'Edge._to') if par else fld(tt.elem, 'f0')
        val(F.a(e, 1), at(st['tab'], fld(nb, 'id')), ctx + ': neighbour released', e)
    r.ob(tag, ctx + ': every neighbour waits one less', dec)
    def closed():
        no_other_writes(F, lambda l: l.a[1] == fieldr, ('bound', 'bbound', 'Edge._obj', 'Edge._lbl', 'layer', 'parents.size', 'kids.size', 'root', 'sink', 'ddexact'), ctx)
    r.ob(tag, ctx + ': changes nothing but the values', closed)

@rule('C02', 'C11')
def bests(r):
    if r.pid in ('C02', 'C00'): best_rules(r, 'computeBest', 'C02', 'bound', True)
    if r.pid in ('C11', 'C00'): best_rules(r, 'computeBestBackward', 'C11', 'bbound', False)
