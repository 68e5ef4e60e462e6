"""Drawing of diagrams (C30), independence of the result from clock, chance and environment (C31)."""
from rules import *
from rules_dd import *
from rules_misc import defs

FORK = ('fork', 'vfork', 'clone')
TAKEOVER = re.compile(r'^(execl|execlp|execle|execv|execvp|execvpe|execve|_exit|_Exit|exit|quick_exit|abort|printf|puts|perror|fprintf|close|dup2?|signal|std::(quick_exit|abort|exit|_Exit|terminate))')
@rule('C30')
def drawing(r):
    TG = 'C30'
    disp = [F for F in r.fns('dd', r'^AbstractDD::display\(')]
    def child():
        ctx = 'displaying'
        fs = r.fns('dd', r'^(AbstractDD::|BAndB::|display\(|ANode::|Bounds::)')
        n = 0
        for F in fs:
            for c in [e for e in F.events if e.kind == 'call' and e.name in FORK and e.gate is not FALSE]:
                n += 1
                me = F.v.SB(cmp_eq0(c.ret))                              # in the child
                for x in F.g.rets:
                    if satis(band(F.v.SB(x.gate), me)) and entails(F.v.SB(x.gate), F.gate(c)): raise Bad('%s: the child process returns into the program and carries on in its place (if [%s])' % (ctx, bshow(band(F.v.SB(x.gate), me))[:150]), x)
                    if satis(band(F.v.SB(x.gate), F.gate(c), me)): raise Bad('%s: the child process returns into the program and carries on in its place' % ctx, x)
                ins = [e for e in F.events if e.kind == 'call' and e.idx > c.idx and not satis(band(F.gate(e), bnot(me)))]
                for e in F.events:
                    if e.kind == 'call' and e.idx > c.idx and satis(band(F.gate(e), me, F.gate(c))) and entails(F.gate(e), F.gate(c)):
                        if e.name in FORK and not entails(F.gate(e), bnot(me)): raise Bad('%s: the child process makes further processes' % ctx, e)
                        if e.name and re.match(r'^(AbstractDD|DD|BAndB|ANode|ANList|Bounds|Heap)::', e.name): raise Bad('%s: the child process carries on with the program (%s)' % (ctx, e.name), e)
                if not [e for e in ins if e.name.startswith('exec')]: raise Unk('what the child does')
        if not n and disp:
            z = [e for e in disp[0].events if e.kind == 'call' and re.match(r'^(posix_spawnp?|system|popen|std::system)$', e.name or '')]
            if not z: raise Unk('displaying: no process is started')
    r.ob(TG, 'a process started to show a diagram never carries on as the program', child)
    def shown():
        F = disp[0]; me = F.A(0)
        c = F.one(F.calls('AbstractDD::saveGraph', 'saveGraph'), 'drawing the diagram')
        if F.a(c, 0) is not me: raise (Unk if opaque(F.a(c, 0)) else Bad)('display: another diagram is drawn', c)
        chk(F.gate(c), TRUE, 'display: drawing the diagram', c)
        for x in F.calls('fork', 'system', 'posix_spawn', 'posix_spawnp'):
            if not before(c, x): raise Bad('display: the viewer is started before the diagram is drawn', x)
    r.ob(TG, 'what is displayed is the diagram itself, drawn before it is shown', shown)
    def body():
        F = r.fn('dd', r'^AbstractDD::saveGraph\((?!.*\)::)'); me, os = F.A(0), F.A(1); ctx = 'drawing'
        pn = [e for e in F.calls('AbstractDD::printNode', 'printNode') if F.a(e, 1) is os or F.a(e, 1) is F.S(os)]
        if not pn: raise Bad(ctx + ': no node is written')
        lst = fld(me, 'AbstractDD._an')
        # arcs
        arcs = [e for e in pn if F.a(e, 2).op == 'fld' and F.a(e, 2).a[1] in ('f0', 'Edge._to', 'Edge._from') and F.under(e)]
        nodes = [e for e in pn if e not in arcs]
        N = F.one(nodes, 'writing a node'); n = F.a(N, 2)
        ts = F.under(N)
        if len(ts) != 1: raise (Bad(ctx + ': one node only is written', N) if not ts else Unk('nest'))
        chk(F.gate(N), TRUE, ctx + ': writing a node', N)
        t = ts[0]
        if t.kind == 'chain': 
            if t.cont_obj is not lst: raise Unk(ctx + ': nodes')
        elif t.kind == 'drain':
            h = F.one(F.calls('Heap::extractMax'), 'taking a node'); pq = F.a(h, 0)
            if n is not F.S(h.ret): raise (Unk if opaque(n) else Bad)('%s: the node written is %s' % (ctx, show(n)[:80]), N)
            chk(F.gate(h), TRUE, ctx + ': taking a node', h)
            if not t.full: raise (Unk if any(opaque(x) for p, q, eg in t.early for x in atoms_of(F.v.SB(eg))) else Bad)(ctx + ': stops before every node was drawn')
            put = [e for e in F.calls('Heap::insert', 'Heap::insertHeap') if F.a(e, 0) is pq and F.under(e)]
            p = F.one(put, 'queueing the nodes'); us = F.under(p)
            if len(us) != 1 or us[0].kind != 'chain' or us[0].cont_obj is not lst and F.S(us[0].cont_obj) is not lst: raise Unk(ctx + ': nodes')
            if us[0].early: raise Bad(ctx + ': not all nodes are drawn', p)
            chk(F.gate(p), TRUE, ctx + ': queueing a node', p)
            x = F.S(F.g.load(p.mem, p.args[1], 8, 'ptr'))
            if x is not us[0].elem: raise (Unk if opaque(x) else Bad)('%s: what is queued is %s' % (ctx, show(x)[:60]), p)
            if not before(p, h) and not loop_before(us[0].h, h.mem): raise Unk(ctx + ': order')
            if p.name.endswith('Heap::insert'):
                b = F.calls('Heap::buildHeap')
                if not b: raise Unk(ctx + ': order of the nodes')
        else: raise Unk(ctx + ': nodes')
        # every arc below a node
        if not arcs: raise Bad(ctx + ': no arc is written', N)
        tl = {F.under(e)[-1].h: F.under(e)[-1] for e in arcs}
        if len(tl) != 1: raise Unk(ctx + ': arcs')
        a = list(tl.values())[0]
        if a.kind != 'vec': raise Unk(ctx + ': arcs')
        if a.early: raise Bad(ctx + ': not all arcs are written', arcs[0])
        for e in arcs:
            if len(F.under(e)) != 2 or F.under(e)[0].h != t.h: raise Unk(ctx + ': arcs')
            chk(F.gate(e), TRUE, ctx + ': writing an arc', e)
        size = F.S(a.hi) if a.hi is not None else None
        if size is not None and 'parents' in show(size) or size is not None and 'kids' not in show(size): raise Unk(ctx + ': arcs')
        if F.S(a.lo) is not const(0): raise (Unk if opaque(F.S(a.lo)) else Bad)('%s: the arcs are written from the one with index %s on' % (ctx, show(F.S(a.lo))), arcs[0])
        ends = [F.a(e, 2) for e in sorted(arcs, key=lambda e: e.idx)]
        if len(ends) != 2: raise (Bad('%s: an arc is written with %d ends' % (ctx, len(ends)), arcs[0]) if len(ends) < 2 else Unk(ctx + ': arcs'))
        fs_ = [x.a[1] in ('f0', 'Edge._from') for x in ends]
        if ends[0].a[0] is not ends[1].a[0]: raise Unk(ctx + ': arcs')
        if fs_ == [False, True]: raise Bad('%s: arcs are drawn backwards' % ctx, arcs[0])
        if fs_ != [True, False]: raise Bad('%s: an arc is drawn with the same node at both ends' % ctx, arcs[0])
    r.ob(TG, 'every node and every arc of the diagram is drawn, in the right direction', body)
    def same_():
        ctx = 'drawing'
        for F in r.fns('dd', r'^AbstractDD::(saveGraph|display)\((?!.*\)::)'):
            for e in F.stores():
                raise (Unk if opaque(F.lv(e)) else Bad)('%s: changes %s' % (ctx, show(F.lv(e))[:80]), e)
            for e in F.events:
                if e.kind == 'call' and e.gate is not FALSE and re.match(r'^(ANode::(addArc|disconnect|reset)|ANList::(push_back|pop_back|remove|clear)|AbstractDD::(compute|apply|reset|setStrategy|addArc|update|init|computeBest|computeBestBackward)|Vec::(push_back|pop_back|clear|operator=)|NDArray::|Pool::clear)', e.name or ''):
                    if e.args and psplit(e.args[0])[0].op == 'alloca': continue
                    raise Bad('%s: changes the diagram (%s)' % (ctx, e.name), e)
    r.ob(TG, 'drawing leaves the diagram as it is', same_)

# ---------------------------------------------------------------- C31 -------
SRC = re.compile(r'^(RuntimeMonitor::|std::chrono::|std::random_device|std::(mersenne|linear_congruential|subtract_with)|rand(_r)?$|random$|s?rand(48)?$|drand48|time$|clock$|clock_gettime|gettimeofday|getenv|secure_getenv|getpid|gettid|pthread_self|std::this_thread|std::(rand|time|clock|getenv)$|getrandom|arc4random|getrusage|times$|__rdtsc|std::random_shuffle|std::shuffle)')
PRINT = re.compile(r'^(AbstractDD::(printNode|print|saveGraph|initialWorst|initialBest|isBetter|isBetterEQ)|Bounds::print|operator<<|print|std::setw|DD::(printNode|initialWorst|initialBest)|ANode::print|Node::print|Heap::(size|empty)|ANList::size|std::)')
@rule('C31')
def determined(r):
    TG = 'C31'
    fs = [F for F in r.fns('dd', r'.') if not re.match(r'^(RuntimeMonitor|k_|U[A-Z])', F.dem)]
    def src(t): return t.op in ('call', 'rcall', 'pcall') and SRC.match(str(t.a[0]))
    def limit(t): return t.op in ('call', 'rcall', 'pcall') and str(t.a[0]) == 'std::function::operator()'
    def tainted(F):
        D = defs(F); bad = set(); memo = {}
        def has(t):
            """a value from the outside in t; asking the time limit is the one use of it that is meant"""
            if not isinstance(t, T): return False
            if t in bad: return True
            if src(t): return True
            if limit(t): return False
            if t.op == 'ite': return any(has(v) or any(has(a) for a in atoms_of(g)) for g, v in ite_cases(t))
            return any(sub(x) for x in t.a)
        def sub(x):
            if isinstance(x, Bdd): return any(has(a) for a in atoms_of(x))
            if isinstance(x, T): return has(x)
            if isinstance(x, tuple): return any(sub(y) for y in x)
            return False
        ch = True
        while ch:
            ch = False
            for q, (t, i, b) in D.items():
                if q not in bad and (has(i) or has(b)): bad.add(q); ch = True
        return has
    def dep(has, g):
        S = {a for a in atoms_of(g) if has(a)}
        if not S: return False
        return bexists(g, lambda a: a in S) is not g
    def go():
        n = 0
        for F in fs:
            if not any(e.kind == 'call' and SRC.match(e.name or '') or e.kind == 'call' and any(isinstance(a, T) and any(src(s) for s in subterms(a)) for a in e.args) for e in F.events) and not any(src(s) for e in F.events for a in atoms_of(F.gate(e)) for s in subterms(a)): continue
            n += 1; has = tainted(F)
            for t in F.loops():
                for x in t.exits:
                    if dep(has, F.v.SB(x[2])): raise Bad('%s: how often a loop runs depends on %s' % (F.name, why(F.v.SB(x[2]), has)), F.g.rets[0] if F.g.rets else None)
            for e in F.events:
                if e.kind == 'call' and re.match(r'^std::(random_shuffle|shuffle)', e.name or ''): raise Bad('%s: the order is left to chance' % F.name, e)
                local = e.kind == 'store' and psplit(e.ptr)[0].op == 'alloca'
                silent = e.kind == 'call' and (SRC.match(e.name or '') or PRINT.match(e.name or '') or e.pure)
                if e.kind in ('store', 'call', 'copy', 'set') and not local and not silent and dep(has, F.gate(e)):
                    raise Bad('%s: %s depends on %s' % (F.name, e.name if e.kind == 'call' else 'what is written', why(F.gate(e), has)), e)
                if e.kind == 'store' and not local and has(F.val(e)) and F.lv(e).op in ('fld', 'at') and not re.search(r'anon|optTime|shared', show(F.lv(e))) and not F.dem.count('lambda') and '::$_' not in F.dem:
                    raise Bad('%s: %s is set from %s' % (F.name, show(F.lv(e))[:60], show(F.val(e))[:60]), e)
                if e.kind == 'call' and not silent and e.name and not e.name.startswith(('std::', 'operator')) and any(has(F.S(a)) for a in e.args if isinstance(a, T)):
                    raise Bad('%s: %s is called with a value from outside (%s)' % (F.name, e.name, next(show(F.S(a))[:60] for a in e.args if has(F.S(a)))), e)
            for x in F.g.rets:
                v = x.value
                if dep(has, F.v.SB(x.gate)) or isinstance(v, T) and has(F.S(v)) or isinstance(v, Bdd) and dep(has, F.v.SB(v)):
                    if '::$_' in F.dem: continue
                    raise Bad('%s: what is returned depends on a value from outside' % F.name, x)
        return n
    def why(g, has): return ', '.join(show(a)[:80] for a in atoms_of(g) if has(a))
    r.ob(TG, 'nothing but printing and the time limit depends on clock, chance or environment (%d functions)' % len(fs), go)

    def addresses():
        """an order on nodes must not come from where they happen to lie in memory"""
        n = 0
        for F in fs:
            m = re.search(r'operator\(\)\((handle_ptr<ANode>|QNode|ANode)( const)?[&*]?, (handle_ptr<ANode>|QNode|ANode)( const)?[&*]?\)', F.dem)
            if not m: continue
            n += 1
            def addr(x):
                b = x
                while b.op in ('fld', 'ld') and isinstance(b.a[0], T): b = b.a[0]
                return x.op == 'fld' and x.a[1] == 'f0' and x.a[0] is b or m.group(1) == 'ANode' and x is b and b.op == 'arg'
            for x in F.g.rets:
                v = x.value
                if isinstance(v, T): v = F.v.SB(F.g.tobool(v))
                elif isinstance(v, Bdd): v = F.v.SB(v)
                else: continue
                for a in atoms_of(v):
                    if a.op != 'lt0' or not isinstance(a.a[0], T) or a.a[0].op != 'lin': continue
                    if any(isinstance(k, T) and addr(k) for k, c in a.a[0].a[1]): raise Bad('%s: nodes are ordered by their address' % F.name, x)
        return n
    r.ob(TG, 'the order of nodes does not depend on where they lie in memory', addresses)
