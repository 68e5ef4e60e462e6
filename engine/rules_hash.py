"""Hash tables: lookup and insertion look at the same bucket, a bucket is alive only in its generation."""
from rules import *
from rules_val import loopgate
from rules_cont import *
from rules_cont import fin

def flat(t, q=1):
    """q*t as a case distinction without inner ones"""
    out = []
    for g, v in ite_cases(t):
        if v.op == 'lin':
            c, d = lin_of(v)
            i = [x for x in d if x.op == 'ite']
            if len(i) == 1:
                rest = mklin(c, {x: n for x, n in d.items() if x is not i[0]})
                for h, w in ite_cases(i[0]):
                    gg = band(g, h)
                    if gg is not FALSE: out += [(band(gg, a), b) for a, b in ite_cases(flat(add(rest, mulc(w, d[i[0]])), q)) if band(gg, a) is not FALSE]
                continue
        elif v.op == 'ite':
            out += [(band(g, a), b) for a, b in ite_cases(flat(v, q)) if band(g, a) is not FALSE]; continue
        out.append((g, mulc(v, q)))
    return ite(out)
def agrees(v, w, care):
    try: val(v, w, '', None, care); return True
    except (Unk, Bad): return False

def hashrules(r, C, pre, tags, keyed):
    f = lambda me, x: fld(me, C + '.' + x)
    idx = {}                     # function -> bucket index
    def bucket(F, me, key, ctx):
        hs = [e for e in F.events if e.kind == 'call' and e.name.startswith('std::hash')]
        c = F.one([e for e in hs if not F.under(e)] or hs, 'hash')
        val(F.a(c, 1), key, ctx + ': hashed', c)
        h = F.S(c.ret)
        us = set()
        for e in F.events:
            for t in list(getattr(e, 'args', None) or ()) + [getattr(e, 'value', None), getattr(e, 'ptr', None)]:
                if isinstance(t, T):
                    try: s = F.S(t)
                    except Unk: continue
                    us |= {x for x in subterms(s) if x.op == 'at' and x.a[0] in (f(me, '_tab'), f(me, '_mgc'))}
            if e.kind == 'store':
                for _, v in ite_cases(F.lv(e)):
                    if v.op == 'at' and v.a[0] in (f(me, '_tab'), f(me, '_mgc')): us.add(v)
        for t in F.loops():
            if isinstance(t.cont_obj, T): us |= {x for x in subterms(t.cont_obj) if x.op == 'at' and x.a[0] in (f(me, '_tab'), f(me, '_mgc'))}
        ixs = {x.a[1] for x in us}
        if not ixs: raise Unk('bucket')
        if len(ixs) > 1:
            if all(occurs(x, h) for x in ixs) and not any(opaque(x) for x in ixs): raise Bad('%s: looks at different buckets' % ctx, c)
            raise Unk('bucket')
        ix = ixs.pop()
        exp = mk('urem', h, f(me, '_mxs'))
        if ix is not exp:
            if not occurs(ix, h): raise Bad('%s: the bucket does not depend on the hash' % ctx, c) if not opaque(ix) else Unk('bucket')
        idx[ctx] = (ix, exp, c)
        return ix, h
    def live(me, ix): return eq(at(f(me, '_mgc'), ix), f(me, '_magic'))
    def head(me, ix): return ite([(live(me, ix), at(f(me, '_tab'), ix)), (bnot(live(me, ix)), NULL)])
    def chain(F, me, ix, key, ctx, valref=None):
        """the walk along the bucket; gives (found, element, role of next)"""
        ts = [t for t in F.loops()]
        if len(ts) != 1 or ts[0].kind != 'chain': raise (Bad(ctx + ': the bucket is not searched') if not ts else Unk('walk'))
        t = ts[0]; H = head(me, ix); tb = at(f(me, '_tab'), ix)
        lg = loopgate(F, t)
        if t.cont_obj is H: chk(lg, TRUE, ctx + ': the walk')
        elif t.cont_obj is tb:
            if same(lg, TRUE): raise Bad('%s: a bucket of an earlier generation is looked at' % ctx)
            chk(lg, live(me, ix), ctx + ': the walk')
        elif opaque(t.cont_obj): raise Unk('walk')
        else: raise Bad('%s: walks along %s' % (ctx, show(t.cont_obj)[:100]))
        qs = [e for e in F.events if e.kind == 'call' and e.name.startswith('std::equal_to')]
        if not qs and not [e for e in F.events if e.kind == 'call' and e.name not in gvg.FRESH and not e.name.startswith('std::hash') and e.name not in ('UKey::UKey', 'Pool::allocate')]: raise Bad('%s: the keys are not compared' % ctx)
        q = F.one(qs, 'comparison')
        if t not in F.under(q): raise Unk('comparison')
        chk(F.gate(q), TRUE, ctx + ': comparing', q)
        args = [F.a(q, 1), F.a(q, 2)]
        if key not in args: raise (Bad('%s: compares %s with %s' % (ctx, show(args[0])[:60], show(args[1])[:60]), q) if not any(opaque(a) for a in args) else Unk('comparison'))
        other = args[1] if args[0] is key else args[0]
        E = t.elem if getattr(t, 'elem', None) is not None else None
        if len(t.early) != 1: raise Unk('walk ends')
        hit = F.v.SB(t.early[0][2])
        pq = [a for a in atoms_of(hit) if a.op == 'pcall' and a.a[0].startswith('std::equal_to')]
        if len(pq) != 1: raise Unk('walk ends')
        want = atom(pq[0])
        nat = [a for a in atoms_of(hit) if a not in pq]
        if entails(hit, bnot(want)): raise Bad('%s: stops at an element with another key' % ctx, q)
        hx = bexists(hit, lambda a: a in pq)
        if not same(hit, band(hx, want)): raise Unk('walk ends')
        if [a for a in nat if not (a.op in ('eq0', 'peq'))]: raise Bad('%s: an element with the key is passed over when [%s]' % (ctx, bshow(bnot(hx))[:150]), q)
        sm = [a for e in F.events for a in atoms_of(F.gate(e)) if a.op == 'some']
        rb = []
        try: rb = [a for a in atoms_of(F.retbool()) if a.op == 'some']
        except Exception: pass
        sm = set(sm + rb)
        if len(sm) != 1: raise Unk('found')
        fnd = atom(list(sm)[0])
        if lg is not TRUE and t.cont_obj is tb: fnd = band(lg, fnd)
        return t, fnd, other
    def find(F, me, key, ctx, out=None):
        ix, h = bucket(F, me, key, ctx)
        t, fnd, other = chain(F, me, ix, key, ctx)
        return ix, t, fnd, other
    def ent(F, t, other):
        """the table node of the walk"""
        for x in subterms(other):
            if t.elem is x: return x
        raise Unk('element')
    def added(F, me, ix, cond, ctx, key, value):
        a = F.one([e for e in F.events if e.kind == 'call' and e.name == 'Pool::allocate'], 'node')
        chk(F.gate(a), cond, ctx + ': adding', a); val(F.a(a, 0), f(me, '_pool') if False else fld(me, 'f0'), ctx + ': pool', a)
        n = a.ret
        H = head(me, ix); tb = at(f(me, '_tab'), ix)
        S = [e for e in F.stores()]
        def to(l): return [e for e in S if F.lv(e) is l]
        s = F.one(to(tb), 'entering in the bucket'); val(F.val(s), n, ctx + ': entered in the bucket', s); chk(F.gate(s), cond, ctx + ': entering in the bucket', s)
        m = to(at(f(me, '_mgc'), ix))
        if not m: raise Bad(ctx + ': the bucket is not marked alive', s)
        m = F.one(m, 'mark'); val(F.val(m), f(me, '_magic'), ctx + ': mark of the bucket', m)
        if not same(F.gate(m), cond): chk_between(F.gate(m), band(cond, bnot(live(me, ix))), cond, ctx + ': marking the bucket', m)
        b = to(f(me, '_nbp'))
        if not b: raise Bad(ctx + ': not counted', s)
        b = F.one(b, 'count'); val(F.val(b), add(f(me, '_nbp'), const(1)), ctx + ': count', b); chk(F.gate(b), cond, ctx + ': counting', b)
        nf = {}
        for e in S:
            l = F.lv(e)
            if l.op == 'fld' and l.a[0] is n: nf[l.a[1]] = (F.val(e), e)
        for e in F.events:
            if e.kind == 'call' and e.name in ('UKey::UKey',) and psplit(e.args[0])[0] is n:
                o = F.a(e, 0); nf['f0' if o is n else o.a[1] if o.op == 'adr' else '?'] = (mk('copyof', F.a(e, 1)), e)
        hs = [k_ for k_, (v, e) in nf.items() if agrees(v, H, cond)]
        if len(hs) != 1:
            for k_, (v, e) in nf.items():
                if v is tb: raise Bad('%s: chains on to a bucket of an earlier generation' % ctx, e)
            if any(opaque(v) for v, e in nf.values()): raise Unk('chaining')
            raise Bad('%s: the elements already in the bucket are lost' % ctx, s)
        d = {k_: v for k_, v in nf.items() if k_ != hs[0]}
        # before the bucket is overwritten
        hv = nf[hs[0]][1]
        res = {}
        for nm, w in (('key', mk('copyof', key) if keyed else None), ('value', value)):
            if w is None: continue
            ks = [k_ for k_, (v, e) in d.items() if (v is w if nm == 'key' else agrees(v, w, cond))]
            if len(ks) != 1:
                if any(opaque(v) for v, e in d.values()): raise Unk(nm)
                raise Bad('%s: the %s is not stored' % (ctx, nm), s)
            chk(F.gate(d[ks[0]][1]), cond, '%s: storing the %s' % (ctx, nm), d[ks[0]][1])
            res[nm] = ks[0]
        res['next'] = hs[0]
        for e in S:
            l = F.lv(e)
            if any(x.op == 'fld' and x.a[0] is me and x.a[1] != C + '._nbp' or x.op == 'at' and x.a[1] is not ix for _, x in ite_cases(l)): raise Bad('%s: changes %s' % (ctx, show(l)[:80]), e)
        return res
    roles = {}
    def keyat(F, E, other, ctx, q=None):
        """the compared object is the key of the element"""
        if keyed:
            kr = roles.get('key', 'f0')
            exp = E if kr == 'f0' else mk('adr', E, kr)
            val(other, exp, ctx + ': compared with', q)
        else:
            vr = roles.get('value', 'f0')
            if not (other.op == 'adr' and other.a[1] == 'Node._val' and other.a[0] is fld(E, vr)) : raise (Unk('key') if opaque(other) else Bad('%s: compared with %s' % (ctx, show(other)[:80])))
    def put():
        nm = pre + ('safeInsert' if keyed else 'getput')
        if keyed:
            F = k(r, nm); me, key = F.A(0), F.A(1); ctx = 'safeInsert'
            ix, h = bucket(F, me, key, ctx)
            roles.update(added(F, me, ix, TRUE, ctx, key, fld(F.A(2), 'f0')))
            F = k(r, pre + 'insert'); me, key = F.A(0), F.A(1); ctx = 'insert'
            ix, t, fnd, other = find(F, me, key, ctx)
            E = t.elem; keyat(F, E, other, ctx); same_role(t, ctx)
            ro = added(F, me, ix, bnot(fnd), ctx, key, fld(F.A(2), 'f0'))
            agree(ro, ctx)
            o = [e for e in F.stores() if any(x is fld(E, roles['value']) for _, x in ite_cases(F.lv(e)))]
            if not o: raise Bad('insert: the value of a key already present is not replaced')
            o = F.one(o, 'replacing'); val(F.val(o), fld(F.A(2), 'f0'), 'insert: new value', o); chk(F.gate(o), fnd, 'insert: replacing the value', o)
            F = k(r, pre + 'getput'); me, key = F.A(0), F.A(1); ctx = 'getLoc+safeInsertAt'
            ix, t, fnd, other = find(F, me, key, ctx)
            E = t.elem; keyat(F, E, other, ctx); same_role(t, ctx)
            agree(added(F, me, ix, bnot(fnd), ctx, key, fld(F.A(2), 'f0')), ctx)
            out(F, E, fnd, ctx)
        else:
            for nm in ('getput', 'getputraw'):
                F = k(r, pre + nm); me, key = F.A(0), F.A(1); ctx = {'getput': 'getLoc+safeInsertAt', 'getputraw': 'getLoc+rawInsertAt'}[nm]
                ix, t, fnd, other = find(F, me, key, ctx)
                ro = added(F, me, ix, bnot(fnd), ctx, key, F.A(3))
                if not roles: roles.update(ro)
                agree(ro, ctx)
                E = t.elem; keyat(F, E, other, ctx); same_role(t, ctx)
                out(F, E, fnd, ctx)
    def agree(ro, ctx):
        for x in ro:
            if roles.get(x) != ro[x]: raise Bad('%s: keeps the %s elsewhere than the other operations' % (ctx, x))
    def same_role(t, ctx):
        if t.cont_role != roles['next']: raise (Bad('%s: follows %s' % (ctx, t.cont_role)) if t.cont_role else Unk('next'))
    def out(F, E, fnd, ctx):
        o = [e for e in F.stores() if F.lv(e) is fld(F.A(2), 'f0') or F.lv(e) is F.A(2)]
        if not o: raise Bad(ctx + ': the value found is not given')
        o = F.one(o, 'value'); 
        if not satis(fnd): return
        if F.under(o) and same(F.gate(o), TRUE): raise Unk('value given in the walk')
        chk(F.gate(o), fnd, ctx + ': giving the value', o); val(F.val(o), fld(E, roles['value']), ctx + ': value given', o, care=fnd)
        chk(F.retbool(), fnd, ctx + ': answer')
    r.ob(tags, C + ': an element is added in the bucket of its key, in front of those there', put)
    def get():
        if not roles: put()
        F = k(r, pre + ('get' if keyed else 'getLoc')); me, key = F.A(0), F.A(1); ctx = 'get' if keyed else 'getLoc'
        ix, t, fnd, other = find(F, me, key, ctx)
        E = t.elem; keyat(F, E, other, ctx); same_role(t, ctx); out(F, E, fnd, ctx)
        for e in F.stores():
            if any(x.op in ('fld', 'at') and psplit(e.ptr)[0] is me for _, x in ite_cases(F.lv(e))): raise Bad(ctx + ': changes the table', e)
        untouched(F, {me}, ctx)
    r.ob(tags, C + ': a lookup finds exactly what was added under an equal key', get)
    def buckets():
        if len(idx) < (4 if keyed else 3): raise Unk('not all operations understood')
        base = {}
        hs = set()
        for ctx, (ix, exp, c) in idx.items():
            norm = subst_hash(ix)
            base.setdefault(norm, []).append(ctx)
            if ix is not exp: hs.add(ctx)
        if len(base) > 1: raise Bad('%s use different buckets for the same key' % ' and '.join(v[0] for v in base.values()))
        if hs: raise Unk('bucket index of another form')
    def subst_hash(t):
        if not isinstance(t, T): return tuple(subst_hash(x) for x in t) if isinstance(t, tuple) else t
        if t.op in ('rcall', 'pcall') and isinstance(t.a[0], str) and t.a[0].startswith('std::hash'): return 'H'
        a = [subst_hash(x) for x in t.a]
        if t.op in ('and', 'or', 'xor', 'mul', 'lin'): a = sorted(a, key=repr)
        if t.op == 'lin': a = [tuple(sorted(x, key=repr)) if isinstance(x, tuple) else x for x in a]
        return (t.op,) + tuple(a)
    r.ob(tags, C + ': every operation uses the same bucket for a key', buckets)
    def clear():
        F = k(r, pre + 'clear'); me = F.A(0)
        mg = fin(F, me, C + '._magic')
        if mg is f(me, '_magic'):
            if not F.stores(): raise Bad('clear: nothing is cleared')
            if F.loops() or bulk(F): raise Unk('clear')
            raise Bad('clear: buckets of the past stay alive')
        none = cmp_eq0(f(me, '_nbp'))
        mg = ite([(g, v) for g, v in ite_cases(mg) if not (v is f(me, '_magic') and (entails(g, none) or entails(g, cmp_lt0(add(f(me, '_nbp'), const(-1))))))]) if mg.op == 'ite' else mg
        if mg.op == 'ite' and len({v for _, v in mg.a}) == 1: mg = mg.a[0][1]
        c0, d = lin_of(mg)
        if d != {f(me, '_magic'): 1} or c0 != 1: raise (Bad('clear: the generation becomes %s' % show(mg)[:80]) if not opaque(mg) else Unk('generation'))
        same_field(F, me, C + '._nbp', const(0), 'clear: count')
        F = k(r, pre + 'size'); retis(F, f(F.A(0), '_nbp'), 'size')
    r.ob(tags, C + ': clearing forgets every entry', clear)
    def tabsize():
        """the number of buckets is looked up in a constant table: never outside of it, whatever size is asked for"""
        F = k(r, pre + 'new'); me = F.A(0)
        for t in F.loops():
            for p in F.g.loops[t.h].phis:
                if not isinstance(p, T) or p.info.get('back') is None: continue
                for g, v in ite_cases(F.S(p.info['back'])):
                    c0, d = lin_of(v)
                    if c0 >= 0 or len(d) != 1: continue
                    if any(x.op in ('lshr', 'udiv') and any(y.op == 'phi' for y in subterms(x)) for x in subterms(v)):
                        raise Bad('new: a request below the smallest size makes the upper end of the search wrap around')
        n = 0
        for g, v in ite_cases(fin(F, me, C + '._mxs')):
            if isc(v):
                if v.a[0] < 1: raise Bad('new: a table without buckets')
                n += 1; continue
            if v.op != 'at' or v.a[0].op != 'global': raise Unk('number of buckets')
            tb = F.g.p.raw.get('tables', {}).get(v.a[0].a[0])
            if tb is None: raise Unk('sizes')
            if any(x < 1 for x in tb["values"]): raise Bad('new: a table without buckets')
            if not entails(g, cmp_lt0(add(v.a[1], const(-len(tb['values']))))):
                if any(a.op == 'lt0' and set(lin_of(a.a[0])[1]) == set(lin_of(v.a[1])[1]) for a in atoms_of(g)): raise Bad('new: the number of buckets is read outside of the table of sizes')
                raise Unk('index into the sizes')
            n += 1
        if not n: raise Unk('number of buckets')
    r.ob(tags, C + ': a table of any requested size has buckets', tabsize)
    def new():
        F = k(r, pre + 'new'); me = F.A(0)
        val(fin(F, me, 'f0'), F.A(1), 'new: pool')
        M = fin(F, me, C + '._mxs'); same_field(F, me, C + '._nbp', const(0), 'new: count')
        mg = fin(F, me, C + '._magic')
        if not isc(mg): raise Unk('generation')
        tb, gn = fin(F, me, C + '._tab'), fin(F, me, C + '._mgc')
        for nm, p, es in (('buckets', tb, 8), ('marks', gn, 4)):
            a = alloc_of(F, p)
            if a is None: raise Unk(nm)
            pool, n, z = newarr(F, a); val(pool, F.A(1), 'new: pool of the ' + nm, a)
            val(n, M, 'new: number of ' + nm, a)
            if z != es: raise Unk('size')
        ms = [e for e in F.events if e.kind == 'set' or e.kind == 'call' and 'memset' in e.name]
        clean = None
        for e in ms:
            p = psplit(e.ptr)[0] if e.kind == 'set' else psplit(e.args[0])[0]
            if F.S(p) is not gn: continue
            clean = e
        if mg.a[0] == 0: raise Bad('new: the first generation is that of unused buckets')
        if clean is None:
            try: each(F, gn, const(0), M, lambda i: const(0), 'new: marks')
            except Bad: raise Bad('new: the marks are not cleared')
            return
        v, n = clean.args[1], clean.args[2]
        if F.S(v) is not const(0): raise Bad('new: the marks are set to %s' % show(F.S(v)), clean)
        n = flat(F.S(n))
        by = lambda q: flat(M, q)
        exp = by(4)
        if not agrees(n, exp, TRUE):
            for q in (1, 2, 8):
                if agrees(n, by(q), TRUE): raise (Bad('new: only a part of the marks is cleared' if q < 4 else 'new: clears more than the marks', clean))
            raise (Unk('length cleared') if opaque(n) else Bad('new: clears %s bytes of the marks' % show(n)[:80], clean))
        chk(F.gate(clean), TRUE, 'new: clearing the marks', clean)
    r.ob(tags, C + ': a new table is empty', new)
    def visit():
        if not roles: put()
        F = k(r, pre + 'all'); me = F.A(0)
        c = F.one([e for e in F.events if e.kind == 'call' and e.name.startswith('UVisit')], 'visiting')
        ts = F.under(c)
        if len(ts) != 2: raise (Bad('doOnAll: no loops', c) if not ts else Unk('nest'))
        o, t = (ts if nested(F, ts[1], ts[0]) else ts[::-1])
        idxloop(F, o, 'doOnAll')
        val(F.S(o.lo), const(0), 'doOnAll: first bucket', c); val(F.S(o.hi), f(me, '_mxs'), 'doOnAll: last bucket', c)
        if t.kind != 'chain': raise Unk('walk')
        if t.early: raise Bad('doOnAll: stops early in a bucket', c)
        i = o.phi; H = head(me, i); tb = at(f(me, '_tab'), i); lg = loopgate(F, t, o)
        if t.cont_obj is tb:
            if same(lg, TRUE): raise Bad('doOnAll: visits buckets of an earlier generation', c)
            chk(lg, live(me, i), 'doOnAll: walk', c)
        elif t.cont_obj is H: chk(lg, TRUE, 'doOnAll: walk', c)
        else: raise (Unk('walk') if opaque(t.cont_obj) else Bad('doOnAll: walks along %s' % show(t.cont_obj)[:80], c))
        chk(F.gate(c), TRUE, 'doOnAll: visiting', c); same_role(t, 'doOnAll')
        E = t.elem
        if keyed:
            val(F.a(c, 1), E if roles['key'] == 'f0' else mk('adr', E, roles['key']), 'doOnAll: key', c); val(F.a(c, 2), E if roles['value'] == 'f0' else mk('adr', E, roles['value']), 'doOnAll: value', c)
        else: val(F.a(c, 1), fld(E, roles['value']), 'doOnAll: element', c)
    r.ob(tags, C + ': visiting goes through every entry once', visit)

@rule('C20')
def hash1(r): hashrules(r, 'Hashtable', 'k_hash_', 'C20', True)
@rule('C20', 'C04')
def hash2(r): hashrules(r, 'LHashtable', 'k_lhash_', 'C20 C04', False)
