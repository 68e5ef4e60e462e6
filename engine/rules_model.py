"""The model layer: objective sense, callbacks, node creation, transitions, merging of states,
reuse of a diagram for a sub-problem, publication of solutions."""
from rules import *
from rules_dd import *
from rules_val import running, vecloop, full, loopgate, nested

SENSES = (('Maximize', 'max'), ('Minimize', 'min'))
def ddf(r, s, meth, args='', must=True):
    return r.fn('dd', r'^DD<UState, %s<double>.*>::%s\(%s(?!.*lambda)' % (s[0], meth, args), s[1], must)
def VAL(n): return adrs(n, lambda x: mk('adr', x, 'Node._val'))
BEST = pc('Compare::bestValue'); WORST = pc('Compare::worstValue')
def HASLOCAL(F):
    """the term for 'a local bound was given'"""
    d = F.A(0)
    return d
def aroot(p): return psplit(p)[0]

def state_origin(F, p, depth=0):
    """where does the state object behind pointer p come from: a call that produced it, or a term"""
    r, off, ix, path = psplit(p)
    if r.op != 'alloca': return p
    for e in F.events:
        if e.kind == 'call' and e.sret is not None and aroot(e.sret) is r and e.meth == 'operator()': return e
    src = [e for e in F.live(F.calls('UState::UState', 'UState::operator=')) if len(e.raw) > 1 and aroot(e.raw[0]) is r]
    if len(src) == 1 and depth < 5: return state_origin(F, src[0].raw[1], depth + 1)
    raise Unk('state object not traced')

# ----------------------------------------------------------- objective -----
@rule('C01', 'C14')
def sense(r):
    for cls, sn in SENSES:
        up = sn == 'max'
        def pred(meth, strict):
            F = r.fn('dd', r'^%s<double>::%s\(' % (cls, meth))
            a, b = fld(F.args[1], 'f0'), fld(F.args[2], 'f0')
            lt, gt = F.g.flt(a, b), F.g.flt(b, a)
            w = gt if up else lt
            exp = w if strict else bnot(lt if up else gt)
            got = F.retbool()
            if strict: chk(got, exp, '%s::%s' % (cls, meth))
            else:
                # x >= y : not (x < y)
                fe = F.g.fcmp('oeq', a, b)
                th = band(bnot(band(lt, gt)), bnot(band(fe, bor(lt, gt))), bor(lt, gt, fe))
                chk(got, exp, '%s::%s' % (cls, meth), care=th)
        r.ob('C01 C14', '%s: strictly better' % cls, pred, 'better', True)
        r.ob('C01', '%s: at least as good' % cls, pred, 'betterEQ', False)
        def const_(meth, neg):
            F = r.fn('dd', r'^%s<double>::%s\(' % (cls, meth))
            v = F.retval()
            if v.op != 'fc': raise Unk('%s is %s' % (meth, show(v)))
            x = v.a[0]
            if neg and not x <= -2147483647.0 or not neg and not x >= 2147483647.0: raise Bad('%s::%s is %s' % (cls, meth, x))
        r.ob('C01', '%s: every value beats the initial one' % cls, const_, 'bestValue', up)
        r.ob('C01', '%s: no value beats the ultimate one' % cls, const_, 'worstValue', not up)
        F = ddf(r, (cls, sn), 'isBetter')
        r.ob('C01', '%s diagram: better' % cls, lambda F=F: chk(F.retbool(), F.g.better(F.A(1), F.A(2)), 'isBetter'))
        G = ddf(r, (cls, sn), 'isBetterEQ')
        r.ob('C01', '%s diagram: at least as good' % cls, lambda F=G: chk(F.retbool(), bnot(F.g.better(F.A(2), F.A(1))), 'isBetterEQ'))
        H = ddf(r, (cls, sn), 'better')
        def both(F=H):
            a, b = F.A(1), F.A(2)
            for g, v in ite_cases(F.retval()):
                if v is a: chk_imp(g, bnot(F.g.better(b, a)), 'better: first value returned')
                elif v is b: chk_imp(g, bnot(F.g.better(a, b)), 'better: second value returned')
                else: raise Bad('better returns %s' % show(v))
        r.ob('C01', '%s diagram: the better of two' % cls, both)
        I = ddf(r, (cls, sn), 'initialBest'); J = ddf(r, (cls, sn), 'initialWorst')
        r.ob('C01', '%s diagram: start value' % cls, lambda F=I: val(F.retval(), BEST, 'initialBest'))
        r.ob('C01', '%s diagram: unbounded value' % cls, lambda F=J: val(F.retval(), WORST, 'initialWorst'))

# ------------------------------------------------------------ callbacks ----
@rule('C01', 'C03', 'C07', 'C09', 'C10', 'C12', 'C13')
def callbacks(r):
    for s in SENSES:
        def ret(meth, exp, tag, what):
            F = ddf(r, s, meth)
            r.ob(tag, '%s: %s' % (what, s[0]), lambda: val(F.retval(), exp(F), meth))
        ret('cost', lambda F: pc('UStc::operator()', mk('adr', F.A(0), 'DD._stc'), VAL(F.A(1)), F.A(2)), 'C03', 'cost of an arc is what the model says')
        def eqs():
            F = ddf(r, s, 'eqSink')
            chk(F.retbool(), atom(pc('UEqs::operator()', mk('adr', F.A(0), 'DD._eqs'), VAL(F.A(1)))), 'eqSink')
        r.ob('C03 C10', 'being the sink is what the model says: %s' % s[0], eqs)
        def dom():
            F = ddf(r, s, 'dominates')
            chk(F.retbool(), atom(pc('*fp', fld(F.A(0), 'DD._sdom'), VAL(F.A(1)), VAL(F.A(2)))), 'dominates')
            F = ddf(r, s, 'hasDominance')
            chk_imp(F.retbool(), ne(fld(F.A(0), 'DD._sdom'), NULL), 'hasDominance')
        r.ob('C09 C13', 'dominance is what the model says: %s' % s[0], dom)
        def loc():
            F = ddf(r, s, 'local'); H = ddf(r, s, 'hasLocal')
            d = F.A(0); hl = H.retbool()
            has = bsubst(hl, lambda z: sem.subst_atom(F.g, z, H.A(0), d))
            val(F.retval(), [(has, pc('std::function::operator()', mk('adr', d, 'DD._local'), VAL(F.A(1)), F.A(2))), (bnot(has), WORST)], 'local')
        r.ob('C12 C13 C07', 'the local bound is what the model says, or no bound: %s' % s[0], loc)
        def labs(F):
            c = F.one(F.calls('ULgf::operator()', 'ULgfN::operator()'), 'asking for the labels')
            val(F.a(c, 1), VAL(F.A(1)), 'getLabels: state asked', c)
            cs = F.calls('GNSet::GNSet')
            if c.sret is not None and aroot(c.sret) is F.g.args[0]: return
            k = F.one(cs, 'returning the labels')
            if c.sret is None or aroot(k.raw[1]) is not aroot(c.sret): raise Bad('getLabels: returns other labels', k)
            if aroot(k.raw[0]) is not F.g.args[0]: raise Unk('result')
            for e in F.events:
                if e.kind == 'call' and e.name.startswith('GNSet::') and e is not k and e.meth not in ('~GNSet',) and not getattr(e, 'const', False): raise Unk('labels changed')
        for F in r.fns('dd', r'^DD<UState, %s<double>.*>::getLabels\(' % s[0]):
            r.ob('C10 C03', 'the labels tried are those the model generates: %s, %s' % (s[0], 'GNSet' if 'ULgf,' in F.dem else 'NatSet'), labs, F)

# ------------------------------------------- comparisons outside the model ---
OBJ = ('bound', 'bbound', 'Edge._obj', 'QNode.bound', 'DNode.bound')
def objective(t):
    """a node value, arc cost, bound or sum of these"""
    if t.op == 'fld': return t.a[1] in OBJ
    if t.op in ('flin', 'fadd'): return any(objective(x) for x in subterms(t) if x is not t)
    if t.op in ('pcall', 'rcall'): return t.a[0] in ('AbstractDD::local', 'AbstractDD::cost', 'AbstractDD::initialBest', 'AbstractDD::initialWorst', 'AbstractDD::better', 'Bounds::getPrimal', 'AbstractDD::currentOpt')
    if t.op == 'cfield': return 'extractMax' in show(t.a[0]) and t.a[1] == 8
    return False
def noname(t): return re.sub(r'(Min|Max)imize', 'Opt', show(t))
def at_(F, a): return next((e for e in F.events if a in atoms_of(e.gate)), F.events[0] if F.events else None)
def compared(F):
    """(atom, x, y): x < y is asked of objective values"""
    fs = []
    for e in F.events:
        fs.append(e.gate)
        for a in list(e.args) + [getattr(e, 'value', None)]:
            if isinstance(a, Bdd): fs.append(a)
            elif isinstance(a, T): fs += [g for g, _ in ite_cases(a)] + [y for x in subterms(a) if x.op == 'b2i' for y in x.a if isinstance(y, Bdd)]
    for h, L in F.g.loops.items():
        for p, q, eg in F.v.trav[h].exits: fs.append(eg)
        for ph in L.phis:
            if isinstance(ph, T) and ph.info.get('back') is not None: fs += [g for g, _ in ite_cases(ph.info['back'])]
    for f in fs:
        for a in atoms_of(f):
            if a.op == 'flt':
                x, y = F.S(a.a[0]), F.S(a.a[1])
                if (objective(x) or objective(y)) and x.op != 'fc' and y.op != 'fc': yield a, x, y
@rule('C01')
def direction(r):
    def lint():
        n = 0
        for F in r.fns('dd', r'^(AbstractDD|Exact|Restricted|Relaxed|WidthBounded|LQueue|BAndB|Bounds)::(?!~)') + r.fns('dd', r'^void Relaxed::mergeLayer', must=False):
            n += 1
            for a, x, y in compared(F):
                raise Bad('%s: compares %s with %s whatever the direction of the model' % (F.dem[:60], show(x)[:100], show(y)[:100]), at_(F, a))
        if n < 10: raise Unk('functions')
    r.ob('C01', 'values are compared only in the direction of the model', lint)
    def mirror(meth):
        by = {}
        for s in SENSES:
            by[s[0]] = {}
            for F in r.fns('dd', r'^DD<UState, %s<double>.*>::%s\(' % (s[0], meth)):
                for a, x, y in compared(F): by[s[0]][(noname(x), noname(y))] = (F, a, x, y)
        a, b = by.values()
        for (x, y), (F, at, u, v) in a.items():
            if (x, y) in b and (y, x) not in a and (y, x) not in b: raise Bad('%s: compares %s with %s the same way in both directions' % (F.dem[:60], show(u)[:100], show(v)[:100]), at_(F, at))
    for meth in ('update', 'transition', 'merge'): r.ob('C01', 'DD::%s compares in the direction of the model' % meth, mirror, meth)

# --------------------------------------------------------- node creation ---
def found(F, g):
    """(flag, node) of a state table lookup"""
    fl = [a for a in atoms_of_all(F) if a.op == 'exv' and a.a[1] == (1,) and a.a[0] is F.S(g.ret)]
    return atom(mk('exv', F.S(g.ret), (1,)))
def atoms_of_all(F): return []
@rule('C02', 'C04', 'C05', 'C15')
def make_node(r):
    for s in SENSES:
        F = ddf(r, s, 'makeNode'); d = F.A(0); st = F.A(1); ctx = 'makeNode/%s' % s[0]
        ST = {}
        def lookup():
            g = F.one(F.calls('LHashtable::getLoc'), 'looking the state up')
            val(F.a(g, 0), mk('adr', d, 'DD._nmap'), ctx + ': table', g); val(F.a(g, 1), st, ctx + ': state looked up', g)
            chk(F.gate(g), TRUE, ctx + ': lookup', g)
            ST['g'] = g; ST['in'] = atom(mk('exv', F.S(g.ret), (1,))); ST['at'] = fld(aroot(g.raw[2] if len(g.raw) < 4 else g.raw[-1]), 'f0')
        def need():
            if 'g' not in ST: lookup()
            return ST['in'], ST['at']
        r.ob('C04', ctx + ': the state is looked up first', lookup)
        def create():
            inm, at_ = need()
            n = F.one(F.calls('Node::Node'), 'creating the node'); nn = F.S(n.args[0]); ST['nn'] = nn; ST['n'] = n
            chk(F.gate(n), bnot(inm), ctx + ': creating a node', n)
            val(F.a(n, 2), st, ctx + ': state of the new node', n)
            if F.a(n, 1) is not fld(d, 'AbstractDD._mem'): raise Bad(ctx + ': node allocated elsewhere', n)
            i = F.one([e for e in F.calls('LHashtable::safeInsertAt', 'LHashtable::rawInsertAt')], 'entering it in the table')
            chk(F.gate(i), bnot(inm), ctx + ': entering the node', i); val(F.a(i, 2), nn, ctx + ': node entered', i)
            val(F.a(i, 0), mk('adr', d, 'DD._nmap'), ctx + ': table', i)
            tok = F.S(F.g.load(i.mem, i.raw[1], 8, 'i64'))
            if tok is not mk('exv', F.S(ST['g'].ret), (0,)): raise Bad(ctx + ': entered at another place than the one looked up', i)
            if not before(n, i): raise Bad(ctx + ': entered before it has a state', i)
            if before(n, ST['g']): raise Bad(ctx + ': looked up after the state was moved away', ST['g'])
        r.ob('C04', ctx + ': a new node exactly when the state has none', create)
        def ids():
            inm, at_ = need()
            n = F.one(F.calls('Node::Node'), 'creating the node')
            idv = F.a(n, 3); idf = fld(d, 'DD._ndId')
            s1 = F.one(F.stores('DD._ndId'), 'counting the ids')
            chk(F.gate(s1), bnot(inm), ctx + ': counting the ids', s1) if False else chk_at_least(F.gate(s1), bnot(inm), ctx + ': counting the ids', s1)
            val(F.val(s1), add(idf, const(1)), ctx + ': next id', s1)
            raw = n.args[3]
            val(idv, idf if idv is idf else add(idf, const(1)), ctx + ': id', n)
        r.ob('C04', ctx + ': ids are not reused', ids)
        def listed():
            inm, at_ = need()
            nn = F.S(F.one(F.calls('Node::Node'), 'node').args[0])
            ps = [e for e in F.calls('ANList::push_back') if F.a(e, 0) is mk('adr', d, 'AbstractDD._an')]
            orphan = cmp_lt0(add(fld(at_, 'parents.size'), const(-1)))
            back = band(inm, orphan, ne(at_, fld(d, 'root')), ne(at_, fld(d, 'sink')))
            cov = {nn: FALSE, at_: FALSE}
            for e in ps:
                for g, v in ite_cases(F.a(e, 1)):
                    if v not in cov: raise Bad(ctx + ': lists %s' % show(v), e)
                    cov[v] = bor(cov[v], band(g, F.gate(e)))
            chk(cov[nn], bnot(inm), ctx + ': listing the new node')
            chk(cov[at_], back, ctx + ': listing again a node that had been dropped')
        r.ob('C04', ctx + ': every node in use is listed exactly once', listed)
        def start():
            inm, at_ = need()
            nn = F.S(F.one(F.calls('Node::Node'), 'node').args[0]); n = F.one(F.calls('Node::Node'), 'node')
            orphan = cmp_lt0(add(fld(at_, 'parents.size'), const(-1)))
            back = band(inm, orphan, ne(at_, fld(d, 'root')), ne(at_, fld(d, 'sink')))
            cov = {nn: FALSE, at_: FALSE}
            for e in F.stores('bound'):
                for g, l in ite_cases(F.lv(e)):
                    if l.op != 'fld' or l.a[0] not in cov: raise Unk('bound of %s' % show(l))
                    val(F.val(e), BEST, ctx + ': start value', e); cov[l.a[0]] = bor(cov[l.a[0]], band(g, F.gate(e)))
                    if l.a[0] is nn and not before(n, e): raise Bad(ctx + ': start value is overwritten', e)
            chk(cov[nn], bnot(inm), ctx + ': start value of a new node')
            chk_between(cov[at_], back, band(inm, orphan, ne(at_, fld(d, 'root'))), ctx + ': start value of a node put back')
        r.ob('C02', ctx + ': a node without arcs has the worst value', start)
        def flags():
            inm, at_ = need()
            n = F.one(F.calls('Node::Node'), 'node')
            ex = F.a(n, 4); pe = F.g.tobool(F.A(2)) if not isinstance(F.A(2), Bdd) else F.A(2)
            exb = ex.a[0] if ex.op == 'b2i' else F.v.SB(F.g.tobool(ex))
            chk(exb, F.v.SB(pe), ctx + ': exactness of the new node', n)
            nn = F.S(n.args[0])
            ss = [e for e in F.stores('layer')]
            got = exact(at_); cov = FALSE
            for e in ss:
                for g, l in ite_cases(F.lv(e)):
                    if l.op == 'fld' and l.a[0] is at_:
                        chk_imp(band(F.gate(e), exactval(F.val(e))), band(exact(at_), F.v.SB(pe)), ctx + ': exactness of a known node', e)
                        chk_at_least(band(F.gate(e), bnot(exactval(F.val(e)))) if False else bor(bnot(F.gate(e)), exactval(F.val(e))), band(exact(at_), F.v.SB(pe)), ctx + ': exactness of a known node is kept', e)
                        cov = bor(cov, band(g, F.gate(e)))
                    elif l.op == 'fld' and l.a[0] is nn: raise Unk('layer of the new node')
            chk_at_least(cov, band(inm, exact(at_), bnot(F.v.SB(pe))), ctx + ': a node reached from an inexact one becomes inexact')
        r.ob('C05', ctx + ': exact only if reached exactly', flags)
        def below():
            import rules_layer
            inm, at_ = need()
            pe = F.g.tobool(F.A(2)) if not isinstance(F.A(2), Bdd) else F.A(2)
            rules_layer.passed_on(F, at_, band(inm, bnot(F.v.SB(pe))), ctx)
        r.ob('C05', ctx + ': what lies below an expanded node that becomes inexact becomes inexact', below)
        def result():
            inm, at_ = need()
            nn = F.S(F.one(F.calls('Node::Node'), 'node').args[0])
            val(F.sret(), [(inm, at_), (bnot(inm), nn)], ctx + ': node returned')
        r.ob('C04 C03', ctx + ': the node of that state is returned', result)
        # ----- hasNode
        H = ddf(r, s, 'hasNode')
        def has():
            g = H.one(H.calls('LHashtable::getLoc'), 'lookup')
            val(H.a(g, 1), H.A(1), 'hasNode: state', g); val(H.a(g, 0), mk('adr', H.A(0), 'DD._nmap'), 'hasNode: table', g)
            at_ = fld(aroot(g.raw[-1]), 'f0'); inm = atom(mk('exv', H.S(g.ret), (1,)))
            for gg, v in ite_cases(H.sret()):
                if v is at_: continue
                if v is NULL: chk_imp(gg, bnot(inm), 'hasNode: nothing returned')
                else: raise Bad('hasNode returns %s' % show(v))
        r.ob('C04', 'hasNode/%s: tells the node of a state' % s[0], has)

# ------------------------------------------------------------ transition ---
@rule('C03', 'C05', 'C07', 'C10')
def transition(r):
    for s in SENSES:
        F = ddf(r, s, 'transition'); d, bn, src, lab = [F.A(k) for k in range(4)]
        ctx = 'transition/%s' % s[0]
        ST = {}
        def prep():
            u = F.one(F.calls('UStf::operator()'), 'asking the model for the state')
            val(F.a(u, 1), VAL(src), ctx + ': state left', u); val(F.a(u, 2), lab, ctx + ': label', u)
            chk(F.gate(u), TRUE, ctx + ': asking the model', u)
            ST['u'] = u
            has = [a for e in F.events for a in atoms_of(F.gate(e)) if a.op == 'cfield' and occurs(a, F.S(u.ret))]
            if not has: raise Bad(ctx + ': whether there is a state is not looked at', u)
            ST['has'] = atom(has[0])
            H = ddf(r, s, 'hasLocal')
            ST['loc'] = bsubst(H.retbool(), lambda z: sem.subst_atom(F.g, z, H.A(0), d))
        def cond():
            if 'u' not in ST: prep()
            cost = pc('UStc::operator()', mk('adr', d, 'DD._stc'), VAL(src), lab)
            lcs = [e for e in F.live([e for e in F.events if e.kind == 'call' and e.name == 'std::function::operator()']) if F.a(e, 0) is mk('adr', d, 'DD._local')]
            good = FALSE
            ms = F.calls('DD::makeNode')
            if lcs:
                l = F.one(lcs, 'local bound')
                if state_origin(F, l.raw[1]) is not ST['u']: raise Bad(ctx + ': the local bound is that of another state', l)
                if F.a(l, 2) is not const(1): raise Bad(ctx + ': the local bound is asked for in context %s' % show(F.a(l, 2)), l)
                for m in ms:
                    if before(m, l): raise Bad(ctx + ': local bound of a state that was moved away', l)
                good = F.g.better(fsum(fld(src, 'bound'), cost, F.S(l.ret)), fld(bn, 'f0'))
            return good
        def prune():
            prep()
            good = cond()
            ms = F.live(F.calls('DD::makeNode'))
            if not ms: raise Bad(ctx + ': no node made')
            got = bor(*[F.gate(m) for m in ms])
            want = band(ST['has'], bor(bnot(ST['loc']), good))
            chk_at_least(got, want, ctx + ': a successor that may improve the incumbent must be kept', ms[0])
            chk_imp(got, ST['has'], ctx + ': node made for a label the model rejects', ms[0])
        r.ob('C07 C10', ctx + ': a successor is dropped only if the model rejects it or its bound cannot improve', prune)
        def state():
            prep()
            for m in F.live(F.calls('DD::makeNode')):
                val(F.a(m, 0), d, ctx + ': diagram', m)
                if state_origin(F, m.raw[2] if m.sret is not None else m.raw[1]) is not ST['u']: raise Bad(ctx + ': node made for another state', m)
            ms = F.live(F.calls('DD::makeNode'))
            cs = []
            for g, v in ite_cases(F.sret()):
                if v is NULL: chk_imp(g, bnot(bor(*[F.gate(m) for m in ms])), ctx + ': node made but not returned'); continue
                if v not in [F.S(m.ret) for m in ms]:
                    m2 = [m for m in ms if m.sret is not None and occurs(v, m.ret)]
                    if not m2: raise Bad(ctx + ': returns %s' % show(v))
        r.ob('C03', ctx + ': leads to the state the model gives', state)
        def ex():
            for m in F.live(F.calls('DD::makeNode')):
                e = F.S(m.args[2])
                eb = e.a[0] if e.op == 'b2i' else F.v.SB(F.g.tobool(e))
                chk(eb, exact(src), ctx + ': exactness handed on', m, care=F.gate(m))
        r.ob('C05', ctx + ': a node reached from an inexact one is inexact', ex)
        def writes():
            for e in F.stores():
                for g, l in ite_cases(F.lv(e)):
                    if l.op == 'fld' and l.a[1] in ('bound', 'layer', 'parents.size', 'kids.size', 'labels.size', 'root', 'sink', 'ddexact'): raise Bad(ctx + ' writes %s' % show(l), e)
                    if l.op == 'fld' and l.a[0] is bn: raise Bad(ctx + ' changes the bounds', e)
        r.ob('C07 C03', ctx + ': values are left alone', writes)

# -------------------------------------------------------- merging states ---
@rule('C08', 'C02', 'C03', 'C05')
def merge_states(r):
    for s in SENSES:
        F = ddf(r, s, 'merge'); d, f, g2 = F.A(0), F.A(1), F.A(2); ctx = 'merge/%s' % s[0]
        def go():
            u = F.one(F.calls('USmf::operator()'), 'asking the model to merge')
            ab = (F.a(u, 1), F.a(u, 2))
            if set(ab) != {VAL(f), VAL(g2)}: raise Bad(ctx + ': merges other states', u)
            has = [a for e in F.events for a in atoms_of(F.gate(e)) if a.op == 'cfield' and occurs(a, F.S(u.ret))]
            if not has: raise Bad(ctx + ': whether there is a merged state is not looked at', u)
            m = F.one(F.calls('DD::makeNode'), 'node of the merged state')
            if state_origin(F, m.raw[2]) is not u: raise Bad(ctx + ': node made for another state', m)
            chk_imp(F.gate(m), atom(has[0]), ctx + ': node made', m)
            h = F.calls('DD::hasNode')
            if h:
                hh = F.one(h, 'lookup')
                if state_origin(F, hh.raw[2]) is not u: raise Bad(ctx + ': looks up another state', hh)
                if before(m, hh): raise Bad(ctx + ': looks up a state that was moved away', hh)
            for gg, v in ite_cases(F.sret()):
                if v is NULL: continue
                if not occurs(v, m.ret) and v is not F.S(m.ret): raise Bad(ctx + ': returns %s' % show(v))
            chk(bor(FALSE, *[gg for gg, v in ite_cases(F.sret()) if v is not NULL]), F.gate(m), ctx + ': merged node returned', m)
        r.ob('C08 C03', ctx + ': the merged node has the state the model gives', go)
        def older():
            m = F.one(F.calls('DD::makeNode'), 'node'); h = F.one(F.calls('DD::hasNode'), 'lookup of the merged state')
            hn = F.S(h.ret)
            lo = band(ne(hn, NULL), cmp_lt(LAYER(hn), LAYER(f)), cmp_lt(LAYER(hn), LAYER(g2)))
            hi = band(ne(hn, NULL), bor(cmp_lt(LAYER(hn), LAYER(f)), cmp_lt(LAYER(hn), LAYER(g2))))
            # never a node of an earlier layer
            chk_imp(F.gate(m), bnot(hi), ctx + ': merging into a node of an earlier layer', m)
        r.ob('C08', ctx + ': never into a node of an earlier layer', older)
        def values():
            m = F.one(F.calls('DD::makeNode'), 'node'); rv = F.S(m.ret)
            ss = [e for e in F.stores('bound')]
            for e in ss:
                for g, l in ite_cases(F.lv(e)):
                    if l.a[0] is not rv: raise Bad(ctx + ' changes the value of %s' % show(l.a[0]), e)
            if any(F.under(e) for e in ss) or any(F.under(e) for e in F.live(F.calls('Vec::operator='))): raise Unk(ctx + ': values taken in a loop')
            if not ss: raise Bad(ctx + ': the merged node has no value')
            fin = F.final(ss[0].ptr, 8, 'double')
            B = F.g.better; fb, sb, rb = fld(f, 'bound'), fld(g2, 'bound'), fld(rv, 'bound')
            def fv(t):
                return t
            for gg, w in ite_cases(fin):
                c = band(gg, F.gate(m))
                if c is FALSE: continue
                for o in (fb, sb, rb):
                    if o is not w:
                        th = trans_better(F, [fb, sb, rb])
                        if band(c, B(o, w), th) is not FALSE: raise Bad(ctx + ': value of the merged node may be worse than %s' % show(o), ss[0])
                if w not in (fb, sb, rb): raise Bad(ctx + ': value of the merged node is %s' % show(w), ss[0])
            # labels follow the value
            for e in F.live(F.calls('Vec::operator=')):
                if F.a(e, 0) is not LBL(rv): raise Bad(ctx + ' changes labels of %s' % show(F.a(e, 0)), e)
            ls = F.live(F.calls('Vec::operator='))
            labs, vals = {}, {}
            for e in ls:
                for gg, v in ite_cases(F.a(e, 1)):
                    gg = band(gg, F.gate(e))
                    if gg is FALSE: continue
                    src = f if v is LBL(f) else g2 if v is LBL(g2) else None
                    if src is None: raise Bad(ctx + ': labels taken from %s' % show(v), e)
                    labs.setdefault(src, []).append((gg, e))
            for x in ss:
                for gg, v in ite_cases(F.val(x)):
                    gg = band(gg, F.gate(x))
                    if gg is FALSE: continue
                    for o in (f, g2):
                        if v is fld(o, 'bound'): vals.setdefault(o, []).append((gg, x))
            for o in (f, g2):
                if o in vals and o not in labs: raise Bad(ctx + ': value taken without the labels', vals[o][0][1])
                if o in labs: chk(bor(*[x for x, _ in labs[o]]), bor(FALSE, *[x for x, _ in vals.get(o, [])]), ctx + ': labels follow the value', labs[o][0][1])
            if len(ss) == 2 and len(ls) == 2 and all(F.val(x).op == 'fld' for x in ss):
                o1 = [F.val(x) for x in (ss if before(ss[0], ss[1]) else ss[::-1])]
                o2 = [F.a(e, 1) for e in (ls if before(ls[0], ls[1]) else ls[::-1])]
                if all(v.op == 'adr' for v in o2) and [v.a[0] for v in o1] != [v.a[0] for v in o2]: raise Bad(ctx + ': labels copied in another order than the values', ls[0])
        r.ob('C02 C08', ctx + ': the merged node has the better of the two values, with its labels', values)
        def inexact():
            m = F.one(F.calls('DD::makeNode'), 'node'); rv = F.S(m.ret)
            for e in F.stores('layer'):
                chk_imp(band(F.gate(e), exactval(F.val(e))), exact(rv), ctx + ': a merged node becomes exact', e)
        r.ob('C05', ctx + ': merging never makes a node exact', inexact)
def trans_better(F, ts):
    """order axioms between the values compared"""
    B = F.g.better; th = TRUE
    for a in ts:
        for b in ts:
            if a is b: continue
            th = band(th, bnot(band(B(a, b), B(b, a))))
            for c in ts:
                if c is a or c is b: continue
                th = band(th, bimp(band(B(a, b), B(b, c)), B(a, c)), bimp(band(bnot(B(a, b)), bnot(B(b, c))), bnot(B(a, c))))
    return th

# ------------------------------------------------ starting from a node -----
@rule('C15', 'C04', 'C02', 'C10')
def restart(r):
    for s in SENSES:
        def mif():
            F = ddf(r, s, 'makeInitFrom'); ctx = 'makeInitFrom/%s' % s[0]
            d, n = F.A(0), F.A(1)
            rs = F.one([e for e in F.calls('reset') if F.a(e, 0) is d], 'emptying the diagram'); chk(F.gate(rs), TRUE, ctx + ': emptying', rs)
            du = F.one([e for e in F.calls('duplicate') if F.a(e, 0) is d], 'copying the node'); chk(F.gate(du), TRUE, ctx + ': copying', du)
            val(F.a(du, 1), n, ctx + ': node copied', du)
            if not before(rs, du): raise Bad(ctx + ': the copy is thrown away by the reset', rs)
            sw = F.calls('std::function::swap', 'std::function::operator=')
            if not sw: raise Bad(ctx + ': the start of the diagram is not set')
            ok = any(F.a(e, 0) is mk('adr', d, 'DD._initClosure') or F.a(e, 1) is mk('adr', d, 'DD._initClosure') for e in sw)
            if not ok: raise Bad(ctx + ': the start of the diagram is not set', sw[0])
            L = r.fns('dd', r'^DD<UState, %s<double>.*>::makeInitFrom\(.*lambda\'\(\)::operator\(\)\(' % s[0], must=False)
            if len(L) != 1: raise Unk('closure')
            L = L[0]
            val(L.sret(), fld(L.args[1], 'f0'), ctx + ': node the diagram starts from')
            c = F.one(F.calls('std::function::function'), 'closure')
            v = F.S(F.g.load(c.mem, c.raw[1], 8, 'ptr'))
            val(v, F.S(du.ret), ctx + ': node kept for the start', c)
        r.ob('C15', 'apply: starts from a copy of the node given (%s)' % s[0], mif)
        def dup():
            F = ddf(r, s, 'duplicate', 'handle'); ctx = 'duplicate/%s' % s[0]
            d, n = F.A(0), F.A(1)
            g = F.one(F.calls('LHashtable::getLoc'), 'lookup')
            val(F.a(g, 1), VAL(n), ctx + ': state looked up', g)
            inm = atom(mk('exv', F.S(g.ret), (1,))); at_ = fld(aroot(g.raw[-1]), 'f0')
            k = F.one(F.calls('Node::Node'), 'copying the node'); nn = F.S(k.args[0])
            chk(F.gate(k), bnot(inm), ctx + ': copying', k)
            val(F.a(k, 3), n, ctx + ': node copied', k)
            i = F.one(F.calls('LHashtable::rawInsertAt', 'LHashtable::safeInsertAt'), 'entering it in the table')
            chk(F.gate(i), bnot(inm), ctx + ': entering', i); val(F.a(i, 2), nn, ctx + ': node entered', i)
            tok = F.S(F.g.load(i.mem, i.raw[1], 8, 'i64'))
            if tok is not mk('exv', F.S(g.ret), (0,)): raise Bad(ctx + ': entered elsewhere', i)
            p = F.one(F.calls('ANList::push_back'), 'listing it'); chk(F.gate(p), bnot(inm), ctx + ': listing', p); val(F.a(p, 1), nn, ctx + ': node listed', p)
            val(F.sret(), [(inm, at_), (bnot(inm), nn)], ctx + ': node returned')
            s1 = F.one(F.stores('DD._ndId'), 'counting the ids'); chk_at_least(F.gate(s1), bnot(inm), ctx + ': ids', s1); val(F.val(s1), add(fld(d, 'DD._ndId'), const(1)), ctx + ': next id', s1)
            for e in F.stores():
                l = F.lv(e)
                if l.op == 'fld' and l.a[1] in ('bound', 'bbound', 'layer'): raise Bad(ctx + ' changes %s' % show(l), e)
        r.ob('C15 C04 C02', 'apply: the copy keeps state, value and labels (%s)' % s[0], dup)
        def rst():
            F = ddf(r, s, 'reset'); ctx = 'reset/%s' % s[0]; d = F.A(0)
            def must(meth, a0, what):
                e = F.one([e for e in F.calls(meth) if F.a(e, 0) is a0], what); chk(F.gate(e), TRUE, ctx + ': ' + what, e); return e
            nm = mk('adr', d, 'DD._nmap')
            c = must('LHashtable::clear', nm, 'emptying the table')
            must('ANList::clear', mk('adr', d, 'AbstractDD._an'), 'emptying the list')
            p = must('Pool::clear', fld(d, 'AbstractDD._mem'), 'giving the memory back')
            if len(p.args) < 2: raise Bad(ctx + ': all memory of the diagram is given back, its tables included', p)
            val(F.a(p, 1), mk('adr', d, 'AbstractDD._baseline'), ctx + ': memory given back', p)
            al = [e for e in F.calls('LHashtable::doOnAll')]
            if al:
                a = al[0]
                if before(c, a): raise Bad(ctx + ': nodes destroyed after the table was emptied', a)
                if before(p, a): raise Bad(ctx + ': nodes destroyed after their memory was given back', a)
            else: raise Bad(ctx + ': states are not destroyed')
            L = r.fns('dd', r'^DD<UState, %s<double>.*>::reset\(\)::.lambda' % s[0], must=False)
            L = [x for x in L if '::operator()' in x.dem]
            if len(L) == 1:
                x = L[0].one(L[0].calls('Node::~Node', 'UState::~UState'), 'destroying a state'); chk(L[0].gate(x), TRUE, ctx + ': destroying', x)
            for q in ('root', 'sink'):
                e = F.one([e for e in F.stores(q) if F.lv(e) is fld(d, q)], 'forgetting the ' + q); val(F.val(e), NULL, ctx + ': ' + q, e); chk(F.gate(e), TRUE, ctx + ': ' + q, e)
            e = F.one(F.stores('DD._ndId'), 'ids'); val(F.val(e), const(0), ctx + ': ids', e)
        r.ob('C15 C04', 'reset: nothing of the previous diagram remains (%s)' % s[0], rst)
        def ini():
            F = ddf(r, s, 'init'); d = F.A(0)
            c = F.one(F.calls('std::function::operator()'), 'start'); val(F.a(c, 0), mk('adr', d, 'DD._initClosure'), 'init: start', c)
            e = F.one([e for e in F.stores('root')], 'root'); val(F.val(e), F.S(c.ret), 'init: root', e); chk(F.gate(e), TRUE, 'init: root', e)
            val(F.sret(), F.S(c.ret), 'init: node returned')
        r.ob('C15', 'init: the root is the node to start from (%s)' % s[0], ini)
        def trg():
            F = ddf(r, s, 'target'); d = F.A(0)
            c = F.one(F.calls('UTarget::operator()'), 'sink state'); val(F.a(c, 0), mk('adr', d, 'DD._stt'), 'target: state', c)
            m = F.one(F.calls('DD::makeNode'), 'node of the sink')
            if state_origin(F, m.raw[2]) is not c: raise Bad('target: node of another state', m)
            e = F.one(F.stores('sink'), 'sink'); val(F.val(e), F.S(m.ret), 'target: sink', e); chk(F.gate(e), TRUE, 'target: sink', e)
            val(F.sret(), F.S(m.ret), 'target: node returned')
            if F.S(m.args[2]) is not const(1): raise Bad('target: the sink starts out inexact', m)
        r.ob('C15 C10', 'target: the sink has the state the model gives (%s)' % s[0], trg)
        def ctor():
            F = ddf(r, s, 'DD'); d = F.A(0); ctx = 'DD/%s' % s[0]
            m = F.one(F.calls('Pool::mark'), 'mark'); t = F.one(F.calls('LHashtable::LHashtable'), 'table')
            if not before(t, m): raise Bad(ctx + ': the table lies in the memory that a reset gives back', m)
            val(F.a(m, 0), fld(d, 'AbstractDD._mem'), ctx + ': memory', m)
            names = ['DD._sti', 'DD._stt', 'DD._lgf', 'DD._stf', 'DD._stc', 'DD._smf', 'DD._eqs', 'AbstractDD', 'DD._local']
            for k, nm in enumerate(names):
                if nm == 'AbstractDD':
                    e = F.one(F.calls('AbstractDD::AbstractDD'), 'base'); val(F.a(e, 1), F.g.args[k + 1], ctx + ': labels', e); continue
                es = [e for e in F.events if e.kind == 'call' and e.args and e.name.split('::')[-1] in ('function', 'UTarget', 'ULgf', 'UStf', 'UStc', 'USmf', 'UEqs') and F.a(e, 0) is mk('adr', d, nm) and len(e.args) > 1]
                e = F.one(es, 'keeping the callback %s' % nm)
                val(F.a(e, 1), F.g.args[k + 1], ctx + ': callback kept as %s' % nm, e)
            e = F.one(F.stores('DD._sdom'), 'dominance'); val(F.val(e), F.g.args[10], ctx + ': dominance test', e)
            L = r.fns('dd', r'^DD<UState, %s<double>.*>::DD\(.*lambda\'\(\)::operator\(\)\(' % s[0], must=False)
            if len(L) != 1: raise Unk('start closure')
            L = L[0]; me = fld(L.args[1], 'f0')
            c = L.one(L.calls('std::function::operator()'), 'root state'); val(L.a(c, 0), mk('adr', me, 'DD._sti'), ctx + ': root state', c)
            k = L.one(L.calls('DD::makeNode'), 'root'); 
            if state_origin(L, k.raw[2]) is not c: raise Bad(ctx + ': root has another state', k)
            b = L.one(L.stores('bound'), 'value of the root'); val(L.lv(b), fld(L.S(k.ret), 'bound'), ctx + ': value of the root', b); val(L.val(b), mk('fc', 0.0), ctx + ': value of the root', b)
            if not before(k, b): raise Bad(ctx + ': value of the root set too early', b)
            val(L.sret(), L.S(k.ret), ctx + ': root')
            if L.S(k.args[2]) is not const(1): raise Bad(ctx + ': the root starts out inexact', k)
        r.ob('C15', 'a diagram starts from the root state of its model, value 0 (%s)' % s[0], ctor)
        def copy():
            F = ddf(r, s, 'duplicate', r'\)'); d = F.A(0); ctx = 'duplicate model/%s' % s[0]
            b = F.one(F.calls('AbstractDD::AbstractDD'), 'new diagram'); nw = F.S(b.args[0])
            val(F.a(b, 1), mk('adr', d, 'AbstractDD._labels'), ctx + ': labels', b)
            for nm in ('DD._sti', 'DD._stt', 'DD._lgf', 'DD._stf', 'DD._stc', 'DD._smf', 'DD._eqs', 'DD._local'):
                es = [e for e in F.events if e.kind == 'call' and len(e.args) > 1 and F.a(e, 0) is mk('adr', nw, nm) and e.meth in ('function', 'UTarget', 'ULgf', 'UStf', 'UStc', 'USmf', 'UEqs')]
                e = F.one(es, 'callback ' + nm)
                x = F.a(e, 1)
                for _ in range(4):
                    if x.op != 'alloca': break
                    ys = [y for y in F.events if y.kind == 'call' and len(y.args) > 1 and y.args[0] is x and y.meth == e.meth]
                    if len(ys) != 1: raise Unk('callback ' + nm)
                    x = F.a(ys[0], 1)
                val(x, mk('adr', d, nm), ctx + ': callback %s' % nm, e)
            e = F.one(F.stores('DD._sdom'), 'dominance'); val(F.val(e), fld(d, 'DD._sdom'), ctx + ': dominance test', e)
        r.ob('C15', 'diagrams made for the search have the same model (%s)' % s[0], copy)

@rule('C15', 'C13', 'C02')
def nodes(r):
    def word(F, ptrv, exp, ctx):
        ws = [e for e in F.stores('layer')]
        if not ws: raise Bad(ctx + ': layer and exactness are not set')
        fin = F.final(ws[-1].ptr, ws[-1].size, ws[-1].ty)
        chk(exactval(fin), exp, ctx + ': exactness'); 
        if layerval(fin) is not const(0): raise Bad(ctx + ': layer is %s' % show(layerval(fin)))
    def fin(F, e): return F.final(e.ptr, e.size, e.ty)
    def store1(F, me, q, exp, ctx):
        es = [e for e in F.stores(q) if F.lv(e) is fld(me, q)]
        if not es: raise Bad('%s: %s is not set' % (ctx, q))
        if len(es) == 1: val(F.val(es[0]), exp, '%s: %s' % (ctx, q), es[0]); chk(F.gate(es[0]), TRUE, '%s: %s' % (ctx, q), es[0])
        else: val(fin(F, es[-1]), exp, '%s: %s' % (ctx, q), es[-1])
    def ctor(rx, copy):
        F = r.fn('dd', rx); me = F.A(0); ctx = F.name + (' (copy)' if copy else '')
        o = F.A(3) if copy else None
        ex = F.g.tobool(F.A(4 if copy else 3)); ex = F.v.SB(ex)
        store1(F, me, 'bound', fld(o, 'bound') if copy else mk('fc', 0.0), ctx)
        store1(F, me, 'bbound', fld(o, 'bbound') if copy else mk('fc', 0.0), ctx)
        store1(F, me, 'id', F.A(2), ctx)
        for q in ('ANode._next', 'ANode._prev'): store1(F, me, q, NULL, ctx)
        word(F, me, ex, ctx)
        vs = F.calls('Vec::Vec')
        L = [e for e in vs if F.a(e, 0) is LBL(me)]
        e = F.one(L, 'labels')
        if copy:
            if F.a(e, 2) is not LBL(o):
                q = [x for x in F.calls('Vec::operator=') if F.a(x, 0) is LBL(me) and F.a(x, 1) is LBL(o)]
                if not q: raise Bad(ctx + ': the labels of the node are not copied', e)
        for p in (PAR(me), KIDS(me)):
            e = F.one([e for e in vs if F.a(e, 0) is p], 'arcs')
            if copy and len(e.args) > 2 and not isc(F.a(e, 2)): raise Bad(ctx + ': arcs are copied too', e)
    r.ob('C15', 'a new node has no arcs, layer 0 and the exactness given', ctor, r'^ANode::ANode\(Pool\*, unsigned int, bool\)', False)
    r.ob('C15 C13 C02', 'a copied node has the value and the labels of the original, and no arcs', ctor, r'^ANode::ANode\(Pool\*, unsigned int, ANode const&, bool\)', True)
    def node(rx, copy):
        F = r.fn('dd', rx); me = F.A(0); ctx = F.name + (' (copy)' if copy else '')
        b = F.one(F.calls('ANode::ANode'), 'base'); u = F.one(F.calls('UState::UState'), 'state')
        val(F.a(u, 0), VAL(me), ctx + ': state', u)
        val(F.a(u, 1), VAL(F.A(3)) if copy else F.A(2), ctx + ': state', u)
        if copy:
            val(F.a(b, 3), F.A(3), ctx + ': original', b); val(F.a(b, 2), F.A(2), ctx + ': id', b)
            if F.a(b, 4) is not const(1): raise Bad(ctx + ': the root of a sub-problem is exact', b)
        else:
            val(F.a(b, 2), F.A(3), ctx + ': id', b)
            e = F.S(b.args[3]); eb = e.a[0] if e.op == 'b2i' else F.v.SB(F.g.tobool(e))
            chk(eb, F.v.SB(F.g.tobool(F.A(4))), ctx + ': exactness', b)
    r.ob('C15', 'a new node has the state given', node, r'^Node<UState>::Node\(Pool\*, UState&&', False)
    r.ob('C15 C13', 'a copied node has the state of the original', node, r'^Node<UState>::Node\(Pool\*, unsigned int, Node', True)
    def reset():
        F = r.fn('dd', r'^ANode::reset\('); me = F.A(0); ctx = 'ANode::reset'
        for p, w in ((PAR(me), 'incoming arcs'), (KIDS(me), 'outgoing arcs'), (LBL(me), 'labels')):
            e = F.one([e for e in F.calls('Vec::clear') if F.a(e, 0) is p], 'dropping the ' + w); chk(F.gate(e), TRUE, ctx + ': ' + w, e)
        word(F, me, TRUE, ctx)
        for q in ('ANode._next', 'ANode._prev'): store1(F, me, q, NULL, ctx)
    r.ob('C13', 'a recycled node starts afresh', reset)
    def rw():
        F = r.fn('dd', r'^Node<UState>::resetWith\('); me, o = F.A(0), F.A(1); ctx = 'resetWith'
        z = F.one(F.calls('ANode::reset'), 'reset'); val(F.a(z, 0), me, ctx + ': reset', z)
        store1(F, me, 'bound', fld(o, 'bound'), ctx); store1(F, me, 'bbound', fld(o, 'bbound'), ctx)
        l = F.one(F.calls('Vec::operator='), 'labels'); val(F.a(l, 0), LBL(me), ctx + ': labels', l); val(F.a(l, 1), LBL(o), ctx + ': labels', l)
        u = F.one(F.calls('UState::operator='), 'state'); val(F.a(u, 0), VAL(me), ctx + ': state', u); val(F.a(u, 1), VAL(o), ctx + ': state', u)
        for e in [l, u] + F.stores('bound') + F.stores('bbound'):
            chk(F.gate(e), TRUE, ctx, e)
            if e is not u and not before(z, e): raise Bad(ctx + ': wiped again by the reset', e)
    r.ob('C13', 'a recycled node takes state, value and labels of the original', rw)

# --------------------------------------------------------- publication -----
@rule('C01', 'C14', 'C12', 'C15')
def publish(r):
    F = r.fn('dd', r'^AbstractDD::apply\(')
    d, n, bn = F.A(0), F.A(1), F.A(2)
    def order():
        m = F.one(F.calls('makeInitFrom'), 'setting the start'); c = F.one(F.calls('AbstractDD::compute', 'Strategy::compute'), 'compiling')
        val(F.a(m, 1), n, 'apply: node started from', m); val(F.a(m, 0), d, 'apply: diagram', m)
        chk(F.gate(m), TRUE, 'apply: setting the start', m); chk(F.gate(c), TRUE, 'apply: compiling', c)
        val(F.a(c, 1), bn, 'apply: bounds', c)
        if not before(m, c): raise Bad('apply: compiles before the start is set', c)
    r.ob('C15', 'apply: compiles from the node given', order)
    imp = F.g.better(fld(fld(d, 'sink'), 'bound'), fld(bn, 'f0'))
    def upd():
        c = F.one(F.calls('AbstractDD::compute', 'Strategy::compute'), 'compiling')
        u = F.one(F.calls('AbstractDD::update'), 'publishing')
        chk(F.gate(u), imp, 'apply: publishing', u); val(F.a(u, 1), bn, 'apply: bounds published', u); val(F.a(u, 0), d, 'apply: diagram published', u)
        if not before(c, u): raise Bad('apply: publishes before compiling', u)
        b = F.calls('isBetter')
        for x in b:
            if not before(c, x): raise Bad('apply: compares before compiling', x)
    r.ob('C14', 'apply: a better value is published, once compiled', upd)
    def ret():
        chk(F.retbool(), imp, 'apply: result')
        u = F.one(F.calls('AbstractDD::update'), 'publishing')
        # decided before the incumbent moves
        for e in F.g.rets:
            v = e.value
            for a in (atoms_of(v) if isinstance(v, Bdd) else []):
                for q in subterms(a):
                    if q.op == 'ld' and isinstance(q.a[1], int) and q.a[1] >= u.mem_after.id: raise Bad('apply: the comparison is made after the incumbent was updated', u)
    r.ob('C12', 'apply: tells whether the diagram can improve the incumbent', ret)
    def comp():
        G = r.fn('dd', r'^AbstractDD::compute\(')
        c = G.one(G.calls('Strategy::compute'), 'compiling'); val(G.a(c, 0), fld(G.A(0), 'AbstractDD._strat'), 'compute: strategy', c); val(G.a(c, 1), G.A(1), 'compute: bounds', c); chk(G.gate(c), TRUE, 'compute', c)
        G = r.fn('dd', r'^AbstractDD::setStrategy\(')
        e = G.one(G.stores('AbstractDD._strat'), 'strategy'); val(G.val(e), G.A(1), 'setStrategy', e)
        e = G.one(G.stores('Strategy._dd'), 'diagram of the strategy'); val(G.val(e), G.A(0), 'setStrategy', e); val(G.lv(e), fld(G.A(1), 'Strategy._dd'), 'setStrategy', e)
    r.ob('C15', 'compute: runs the strategy set, on this diagram', comp)
    kinds = {'Exact': (TRUE, None), 'Restricted': (TRUE, FALSE), 'Relaxed': (FALSE, TRUE)}
    def kind(cls, m, exp):
        G = r.fn('dd', r'^%s::%s\(' % (cls, m), must=False) or r.fn('dd', r'^Strategy::%s\(' % m)
        if exp is not None: chk(G.retbool(), exp, '%s::%s' % (cls, m))
    for cls, (p, q) in kinds.items():
        r.ob('C14', '%s diagrams: whether their value is that of a solution' % cls, kind, cls, 'primal', p)
        r.ob('C14', '%s diagrams: whether their value is a bound' % cls, kind, cls, 'dual', q)
    for s in SENSES:
        U = ddf(r, s, 'update'); me, b = U.A(0), U.A(1); ctx = 'update/%s' % s[0]
        st = fld(me, 'AbstractDD._strat'); P = atom(pc('Strategy::primal', st)); D = atom(pc('Strategy::dual', st))
        sk = fld(me, 'sink'); ex = U.v.SB(U.g.tobool(fld(me, 'ddexact')))
        def exact_cases():
            exf = [a for e in U.events for a in atoms_of(U.gate(e)) if occurs(a, fld(me, 'ddexact'))]
            exa = atom(exf[0]) if exf else FALSE
            want = bor(P, band(D, exa))
            cov = FALSE
            tot = [e for e in U.calls('Bounds::setIncumbent')]
            for e in U.live([e for e in U.stores() if U.lv(e) is fld(b, 'f0') and not U.under(e)]):
                v = U.val(e); B = U.g.better(fld(sk, 'bound'), fld(b, 'f0'))
                for g, w in ite_cases(v):
                    c = band(g, U.gate(e), B)          # apply only calls it for a better value
                    if c is not FALSE and w is not fld(sk, 'bound'): raise Bad(ctx + ': value published is %s' % show(w), e)
                    c = band(g, U.gate(e), bnot(B))
                    if c is not FALSE and w is not fld(b, 'f0') and w is not fld(sk, 'bound'): raise Bad(ctx + ': value published is %s' % show(w), e)
                chk_imp(U.gate(e), want, ctx + ': the value of an inexact relaxed diagram is published', e)
                cov = bor(cov, U.gate(e))
            B = U.g.better(fld(sk, 'bound'), fld(b, 'f0'))
            chk_at_least(bor(cov, bnot(B)), want, ctx + ': publishing the value')
            cov = FALSE
            for e in U.live([e for e in tot if not U.under(e)]):
                a = [U.S(x) for x in e.args]
                if not (a[1] is fld(sk, 'labels.data') and a[2] is const(0) and a[3] is a[1] and a[4].op == 'fld' and a[4].a[0] is sk and 'sz' in a[4].a[1] or len(a) == 3 and occurs(a[1], sk)):
                    if any(opaque(x) for x in a): raise Unk('labels')
                    raise Bad(ctx + ': labels published are %s' % [show(x) for x in a[1:]], e)
                cov = bor(cov, U.gate(e))
                chk_imp(U.gate(e), want, ctx + ': labels of an inexact relaxed diagram published', e)
                if not any(before(x, e) for x in U.stores() if U.lv(x) is fld(b, 'f0')): raise Bad(ctx + ': solution announced before its value', e)
            chk_at_least(bor(cov, bnot(B)), want, ctx + ': publishing the labels')
        r.ob('C14', ctx + ': a diagram publishes its value and labels when they are those of a solution', exact_cases)
        def frontier():
            ts = vecloop(U, sk, 'parents', 'arcs into the sink')
            if len(ts) > 1: raise Unk('several')
            t = ts[0]; full(U, t, 'arcs into the sink'); E = t.elem; fr = fld(E, 'f0')
            ep = fsum(fld(fr, 'bound'), fld(E, 'Edge._obj'))
            ss = U.live([e for e in U.stores() if U.lv(e) is fld(b, 'f0') and t in U.under(e)])
            e = U.one(ss, 'publishing an exact path')
            val(U.val(e), ep, ctx + ': value of an exact path', e)
            want = band(exact(fr), U.g.better(ep, fld(b, 'f0')))
            chk(U.gate(e), want, ctx + ': publishing an exact path', e)
            en = loopgate(U, t)
            exf = [a for x in U.events for a in atoms_of(U.gate(x)) if occurs(a, fld(me, 'ddexact'))]
            exa = atom(exf[0]) if exf else FALSE
            chk_at_least(en, band(bnot(P), D, bnot(exa)), ctx + ': looking for exact paths')
            i = U.one([x for x in U.calls('Bounds::setIncumbent') if t in U.under(x)], 'publishing the labels of an exact path')
            chk(U.gate(i), want, ctx + ': labels of an exact path', i)
            if not before(e, i): raise Bad(ctx + ': announced before its value', i)
            vec = aroot(i.raw[1]) if aroot(i.raw[1]).op == 'alloca' else None
            a1 = U.S(i.args[1])
            if a1.op == 'fld' and a1.a[0].op == 'alloca':
                vec = a1.a[0]
                pb = [x for x in U.calls('std::vector::push_back') if U.S(x.args[0]) is vec]
                last = [x for x in pb if U.under(x)[-1] is t]; inner = [x for x in pb if U.under(x)[-1] is not t]
                l = U.one(last, 'label of the last arc'); val(U.a(l, 1), fld(E, 'Edge._lbl'), ctx + ': label of the last arc', l); chk_at_least(U.gate(l), want, ctx + ': label', l)
                x = U.one(inner, 'labels up to the sink')
                it = U.under(x)[-1]
                full(U, it, 'labels')
                chk(U.gate(x), TRUE, ctx + ': labels copied', x)
                if not before(l, i): raise Bad(ctx + ': announced without the last label', i)
                if it.kind == 'idx':
                    hi = U.S(it.hi)
                    if it.lo is not const(0) or not (hi.op == 'fld' and hi.a[0] is fr and 'Vec._sz' in hi.a[1] or hi is fld(fr, 'labels.size')): 
                        if opaque(hi): raise Unk('labels')
                        raise Bad(ctx + ': not all labels are copied', x)
                    val(U.a(x, 1), at(fld(fr, 'labels.data'), it.phi), ctx + ': label copied', x)
                lm = U.g.loops[it.h].entry_mem
                if in_mem(l, lm): raise Bad(ctx + ': the last label comes first', l)
        r.ob('C14', ctx + ': solutions made of exact nodes are published', frontier)
    def bounds():
        B0 = r.fn('dd', r'^Bounds::attach\('); d = fld(B0.A(1), 'f0')
        P = B0.v.SB(B0.g.tobool(fld(B0.A(0), 'Bounds._primalSet')))
        es = [e for e in B0.stores() if B0.lv(e) is fld(B0.A(0), 'f0')]
        e = B0.one(es, 'start value')
        fl = [a for a in atoms_of(B0.gate(e))]
        if len(fl) != 1 or not occurs(fl[0], fld(B0.A(0), 'Bounds._primalSet')): raise Bad('attach: start value set if [%s]' % bshow(B0.gate(e)), e)
        chk(B0.gate(e), bnot(atom(fl[0])), 'attach: a start value is given unless there is one', e)
        v = B0.val(e)
        if not (v.op == 'pcall' and v.a[0] == 'AbstractDD::initialBest'): raise Bad('attach: start value is %s' % show(v), e)
        f = [e for e in B0.stores('Bounds._primalSet')]
        if not f: raise Bad('attach: start value not recorded')
        B1 = r.fn('dd', r'^Bounds::Bounds\(std::shared_ptr', must=False)
        if B1:
            e = B1.one([e for e in B1.stores() if B1.lv(e) is fld(B1.A(0), 'f0')], 'start value')
            v = B1.val(e)
            if not (v.op == 'pcall' and v.a[0] == 'AbstractDD::initialBest'): raise Bad('Bounds: start value is %s' % show(v), e)
            f = B1.one(B1.stores('Bounds._primalSet'), 'flag'); val(B1.val(f), const(1), 'Bounds: flag', f)
        B2 = r.fn('dd', r'^Bounds::onSolution\(')
        p = B2.one([e for e in B2.events if e.kind == 'call' and e.meth in ('push_back', 'emplace_back', 'push_front') and F is not None and B2.a(e, 0) is mk('adr', B2.A(0), 'Bounds._checker')], 'registering the callback')
        chk(B2.gate(p), TRUE, 'onSolution', p)
    r.ob('C14 C01', 'bounds: start value and callbacks', bounds)
    for I in r.fns('dd', r'^(?!.*(lambda|std::for_each|std::function))(\S+ )?Bounds::setIncumbent'):
        def inc(I=I):
            me = I.A(0); ctx = 'setIncumbent'; iv = mk('adr', me, 'Bounds._inc')
            c = I.one([e for e in I.calls('std::vector::clear') if I.a(e, 0) is iv], 'forgetting the old solution'); chk(I.gate(c), TRUE, ctx + ': forgetting', c)
            p = I.one([e for e in I.calls('std::vector::push_back') if I.a(e, 0) is iv], 'recording the solution')
            t = I.under(p)
            if len(t) != 1: raise Unk('copy loop')
            t = t[0]; full(I, t, 'labels'); chk(I.gate(p), TRUE, ctx + ': recording a label', p)
            if t.kind == 'idx' and (t.hi is const(1) or t.hi is const(0)): raise Unk('copy loop counts down')
            if t.kind == 'idx':
                if t.lo is not I.g.args[2] or t.hi is not I.g.args[4]: raise Bad(ctx + ': records labels %s..%s' % (show(t.lo), show(t.hi)), p)
                val(I.sc(p, 1), at(I.g.args[1], t.phi), ctx + ': label', p)
            elif t.kind == 'ptr':
                val(I.sc(p, 1), t.elem, ctx + ': label', p)
                if t.lo is not I.g.args[1] or t.hi is not I.g.args[2]: raise Bad(ctx + ': records labels %s..%s' % (show(t.lo), show(t.hi)), p)
            else: raise Unk('copy loop %s' % t.kind)
            if not in_mem(c, I.g.loops[t.h].entry_mem): raise Bad(ctx + ': the old solution is forgotten too late', c)
            k = I.one([e for e in I.calls('std::function::operator()')], 'telling the callbacks')
            u = I.under(k)
            if not u and not I.foreign(): raise Bad(ctx + ': only one callback is told', k)
            if len(u) != 1 or u[0].kind not in ('list', 'sublist'): raise Unk('callbacks')
            u = u[0]; full(I, u, 'callbacks'); chk(I.gate(k), TRUE, ctx + ': telling a callback', k)
            val(I.a(k, 1), iv, ctx + ': solution told', k)
            if u.kind == 'sublist' and u.start is not fld(me, 'Bounds._checker'): raise Bad(ctx + ': not every callback is told', k)
            chk(loopgate(I, u), TRUE, ctx + ': telling the callbacks', k)
            if in_mem_after(I, k, t, u): raise Bad(ctx + ': callbacks told before the solution is recorded', k)
        r.ob('C14', 'setIncumbent: every callback sees exactly the labels of the new solution', inc)
    def incumbent():
        G = r.fn('dd', r'^AbstractDD::incumbent\(')
        p = G.one(G.calls('std::vector::push_back'), 'labels'); t = G.under(p)
        if len(t) != 1: raise Unk('loop')
        full(G, t[0], 'labels'); chk(G.gate(p), TRUE, 'incumbent: label', p)
        if t[0].kind == 'idx':
            val(G.sc(p, 1), at(fld(fld(G.A(0), 'sink'), 'labels.data'), t[0].phi), 'incumbent: label', p)
            val(t[0].lo, const(0), 'incumbent: first'); 
            if not (G.S(t[0].hi).op == 'fld' and G.S(t[0].hi).a[0] is fld(G.A(0), 'sink')): raise Bad('incumbent: not all labels')
    r.ob('C14', 'incumbent: the labels of the sink', incumbent)
def in_mem_after(F, k, t, u):
    """loop u (callbacks) starts before loop t (copy) is done"""
    m = F.g.loops[u.h].entry_mem
    seen = set()
    def reach(m):
        while m is not None and m.id not in seen:
            seen.add(m.id)
            if m.k == 'loop' and m.d['L'].h == t.h: return True
            if m.k == 'phi': return any(reach(x) for _, x in m.d['ins'])
            m = m.prev
        return False
    return not reach(m)
