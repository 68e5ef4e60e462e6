"""Front end: compiles /repo/src as one unit with the instantiation unit, runs
irx once per profile, caches by content hash (nothing is linked or executed)."""
import hashlib, os, subprocess, sys, glob, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
BUILD = os.path.join(V, 'build'); TOOL = os.path.join(V, 'tool')
REPO = os.environ.get('CODD_REPO', '/repo')      # only for experiments on scratch copies
OUT = os.environ.get('CODD_BUILD', V)
FLAGS = '-std=gnu++23 -O1 -Xclang -disable-llvm-passes -g -DNDEBUG -D_NDEBUG -fignore-exceptions -fvisibility=hidden -flto -fwhole-program-vtables -w'.split()
class BuildError(Exception): pass
def run(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd[:6]), r.stderr[-3000:]))
    return r
def sources():
    src = os.path.join(REPO, 'src')
    fs = sorted(glob.glob(src + '/*'))
    fs = [f for f in fs if os.path.isfile(f)]
    if not any(f.endswith('dd.cpp') for f in fs): raise BuildError('no sources in ' + src)
    return fs
def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]
def irx():
    out = os.path.join(BUILD, 'irx')
    st = digest([TOOL + '/irx.cpp', TOOL + '/build.sh'])
    stamp = out + '.stamp'
    if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == st):
        os.makedirs(BUILD, exist_ok=True)
        run(['bash', TOOL + '/build.sh', out]); open(stamp, 'w').write(st)
    return out
def program_json(profile):
    x = irx()
    fs = sources()
    prof = os.path.join(TOOL, 'profiles', profile + '.txt')
    unit = TOOL + ('/std.cpp' if profile == 'std' else '/inst.cpp')
    key = digest(fs + [unit, prof, TOOL + '/irx.cpp'], ' '.join(FLAGS))
    d = os.path.join(OUT, 'build', 'ir'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s.%s.json' % (profile, key))
    if os.path.exists(out): return out, fs
    for old in glob.glob(os.path.join(d, profile + '.*.json')):
        try: os.unlink(old)
        except OSError: pass
    t = tempfile.mkdtemp(prefix='ir', dir=BUILD)
    try:
        bc = t + '/all.bc'; cpps = [f for f in fs if f.endswith('.cpp')]
        inc = ['-I' + os.path.join(REPO, 'src')]
        if profile == 'std':
            # a unit of its own; if the model of std::set is too small for the code, the real one
            for more in ([], ['-DCODD_ALL'], ['-DCODD_PLAIN'], ['-DCODD_PLAIN', '-DCODD_ALL']):
                try: run(['clang++-18'] + FLAGS + inc + more + ['-c', unit, '-o', bc]); break
                except BuildError as e: err = e
            else: raise err
            run([x, bc, prof, t + '/o.json'])
            os.replace(t + '/o.json', out); return out, fs
        with open(t + '/unity.cpp', 'w') as u:
            u.write('#include "%s/inst.cpp"\n' % TOOL)
            for f in cpps: u.write('#include "%s"\n' % f)
        try: run(['clang++-18'] + FLAGS + inc + ['-c', t + '/unity.cpp', '-o', bc])
        except BuildError:
            # files that do not go together in one unit: compile apart and link
            ps = []
            for i, f in enumerate([TOOL + '/inst.cpp'] + cpps):
                ps.append((f, subprocess.Popen(['clang++-18'] + FLAGS + inc + ['-c', f, '-o', t + '/u%d.bc' % i], stderr=subprocess.PIPE, text=True)))
            for f, p in ps:
                e = p.communicate()[1]
                if p.returncode: raise BuildError('%s does not compile\n%s' % (f, e[-2000:]))
            run(['llvm-link-18', '-o', bc] + [t + '/u%d.bc' % i for i in range(len(ps))])
        run([x, bc, prof, t + '/o.json'])
        os.replace(t + '/o.json', out)
    finally: shutil.rmtree(t, ignore_errors=True)
    return out, fs
if __name__ == '__main__':
    for p in sys.argv[1:] or ('dd', 'cont'): print(program_json(p)[0])
