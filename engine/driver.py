"""check.py <property> [--tier quick|thorough]: decides one property, writes evidence and a report."""
import os, sys, json, time, traceback
import build, rules
from rules import R, RULES, Missing, Unk, Bad
import rules_dd, rules_val, rules_layer, rules_model, rules_bb, rules_cont, rules_heap, rules_hash, rules_list, rules_set, rules_iter, rules_misc, rules_draw, rules_std, rules_time
V = build.V
def load_known():
    known = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                d = dict(x.split('=', 1) for x in l[9:].split(' | ') if '=' in x)
                known.append(d)
    return known
def run(pid, tier):
    r = R(pid, tier)
    for f in RULES.get(pid, []):
        try: f(r)
        except Missing as e: r.und.append((f.__name__, 'anchor gone: %s' % e)); r.gone = getattr(r, 'gone', 0) + 1
        except build.BuildError: raise
        except Unk as e: r.und.append((f.__name__, str(e)))
        except Bad as b: r.und.append((f.__name__, 'before any obligation: ' + b.msg))
        except Exception as e:
            if os.environ.get('CODD_DEBUG'): raise
            r.und.append((f.__name__, 'rule does not apply to this shape: %s: %s' % (type(e).__name__, e)))
    return r
def main(argv):
    t0 = time.time()
    pid = argv[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    if '--quick' in argv: tier = 'quick'
    try: r = run(pid, tier)
    except build.BuildError as e:
        print('ERROR: sources do not compile for analysis:\n%s' % e); return 2
    except Missing as e:
        print('ERROR: anchor gone: %s' % e); return 2
    if not r.obl and not r.viol:
        print('ERROR: nothing could be decided for %s' % pid)
        for n, m in r.und[:20]: print('  undecided: %s: %s' % (n, m))
        return 2
    known = [k for k in load_known() if k.get('property') == pid]
    found = []
    for v in list(r.viol):
        if any(k.get('obligation') == v[0] for k in known): r.viol.remove(v); found.append(v)
    for n, m, w in found: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, m, w))
    os.makedirs(os.path.join(build.OUT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(build.OUT, 'build', 'replay'), exist_ok=True)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': len(r.obl) + len(r.und) + len(r.viol) + len(found), 'known_findings': ['%s: %s' % (x[0], x[1]) for x in found], 'discharged': len(r.obl),
                       'undecided': ['%s: %s' % x for x in r.und], 'checker_cmd': 'python3 /verif/check.py ' + pid,
                       'trusted_base': 'clang 18 front end (-O1, passes disabled) and LLVM inliner; /verif/engine (gated value graph, loop classification); user callbacks only known by name',
                       'rule': 'each obligation compares the gate (condition) and the operands of an effect with the ones the property demands',
                       'functions_analysed': r.stats['functions'], 'effects_seen': r.stats['events'], 'loops_classified': r.stats['loops'],
                       'samples': r.obl[:60], 'sources': [os.path.relpath(f, build.REPO) for f in r.files]},
          'wall_s': round(time.time() - t0, 2), 'violations': len(r.viol)}
    rc = 0
    rep = os.path.join(build.OUT, 'build', 'replay', pid + '.txt')
    with open(rep, 'w') as f:
        f.write('%s (%s)\n' % (pid, tier))
        for n, m, w in r.viol: f.write('VIOLATED %s\n   %s\n   at %s\n' % (n, m, w))
        for n, m in r.und: f.write('undecided %s: %s\n' % (n, m))
        for n in r.obl: f.write('holds %s\n' % n)
    for n, m, w in r.viol[:10]: print('  %s\n    %s\n    at %s' % (n, m, w))
    if r.viol:
        print('VIOLATION property=%s replay=%s' % (pid, rep)); rc = 1
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(build.OUT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations hold, %d undecided, %d violated (%.1fs)' % (pid, len(r.obl), len(r.und), len(r.viol), time.time() - t0))
    if '-v' in argv:
        for n, m in r.und: print('  undecided %s: %s' % (n, m))
    return rc
