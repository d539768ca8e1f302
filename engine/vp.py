"""Check driver: builds the encodings from /repo's current sources, runs the jobs of one property, replays
counterexamples natively, writes evidence.  Usage: vp.run(property_id)."""
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/liboptv/src'
INC = REPO + '/liboptv/include'
HARN = VERIF + '/harness'
CLANG, OPT, LINK = 'clang-18', 'opt-18', 'llvm-link-18'
CFLAGS_IR = ['-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w',
             '-ffp-contract=off', '-fno-builtin', '-D_FORTIFY_SOURCE=0']
NPROC = int(os.environ.get('VP_JOBS', '8'))


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return r.returncode, r.stdout


class BuildError(Exception):
    pass


class Job:
    def __init__(self, name, harness, entry=None, engine='sym', defs=(), tier='quick', reach=None, weight=1, bounds='',
                 srcs=None, **opts):
        self.name = name
        self.harness = harness
        self.entry = entry or name
        self.engine = engine
        self.defs = list(defs)
        self.tier = tier
        self.pyx = opts.pop('pyx', None)      # module of the Python bindings whose generated C the harness includes
        self.libinc = tuple(sorted(opts.pop('libinc', {}).items()))   # header forced into a library source: ((src, hdr),)
        self.opts = opts
        self.reach = reach
        self.weight = weight
        self.bounds = bounds
        self.srcs = srcs      # repo sources not linked (None: all are linked)

    def key(self):
        return hashlib.sha1(repr((self.harness, self.defs, self.libinc, self.pyx)).encode()).hexdigest()[:12]


def sym(name, harness, **kw):
    return Job(name, harness, engine='sym', **kw)


def cbmc(name, harness, **kw):
    return Job(name, harness, engine='cbmc', **kw)


# ------------------------------------------------------------------------------------------------ building
def lib_sources():
    return sorted(glob.glob(SRC + '/*.c'))


def inc_flags(job, f):
    """flags that shrink a size constant of the library for one source file (see the header in /verif/harness)"""
    h = dict(job.libinc).get(os.path.basename(f))
    return (['-include', os.path.join(HARN, h)] + ['-D' + x for x in job.defs]) if h else []


PYV = '/opt/optv-venv'


def pyx_flags(d, job):
    """generates the C of a binding module from its current .pyx; returns the compiler flags for it"""
    if not job.pyx:
        return []
    g = os.path.join(d, 'pyx')
    if not os.path.exists(g + '/optv'):
        os.makedirs(g, exist_ok=True)
        shutil.copytree(REPO + '/py_bind/optv', g + '/optv', ignore=shutil.ignore_patterns('*.c', '*.so', '__pycache__'))
        os.makedirs(g + '/inc')
        os.symlink(INC, g + '/inc/optv')
    if not os.path.exists(g + '/%s.c' % job.pyx):
        rc, t = sh([PYV + '/bin/cython', '-2', 'optv/%s.pyx' % job.pyx, '-o', job.pyx + '.tmp.c'], cwd=g)
        if rc:
            raise BuildError('cython failed on %s:\n%s' % (job.pyx, t))
        os.rename(g + '/%s.tmp.c' % job.pyx, g + '/%s.c' % job.pyx)
    rc, t = sh([PYV + '/bin/python', '-c', 'import sysconfig, glob; print(sysconfig.get_paths()["include"]); '
                'print(glob.glob(sysconfig.get_paths()["purelib"] + "/numpy/core/include")[0])'])
    a, b = t.split()[:2]
    return ['-I', g, '-I', g + '/inc', '-I', a, '-I', b]


def build_lib_ir(d):
    out = []
    procs = []
    for f in lib_sources():
        o = os.path.join(d, os.path.basename(f)[:-2] + '.ll')
        procs.append((f, subprocess.Popen([CLANG] + CFLAGS_IR + ['-I', INC, f, '-o', o], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
        out.append(o)
    for f, p in procs:
        t = p.communicate()[0]
        if p.returncode:
            raise BuildError('clang failed on %s:\n%s' % (f, t))
    return out


def build_sym(d, job):
    ll = os.path.join(d, 'h_' + job.key() + '.ll')
    final = os.path.join(d, 'm_' + job.key() + '.ll')
    rc, t = sh([CLANG] + CFLAGS_IR + ['-DVP_SYM'] + ['-D' + x for x in job.defs] +
               ['-I', HARN, '-I', INC] + pyx_flags(d, job) + [os.path.join(HARN, job.harness), '-o', ll])
    if rc:
        raise BuildError('clang failed on harness %s:\n%s' % (job.harness, t))
    libs = sorted(glob.glob(os.path.join(d, 'lib', '*.ll')))
    for i, l in enumerate(libs):
        f = os.path.join(SRC, os.path.basename(l)[:-3] + '.c')
        if inc_flags(job, f):
            libs[i] = os.path.join(d, 'i_' + job.key() + os.path.basename(l))
            rc, t = sh([CLANG] + CFLAGS_IR + inc_flags(job, f) + ['-I', INC, f, '-o', libs[i]])
            if rc:
                raise BuildError('clang failed on %s:\n%s' % (f, t))
    rc, t = sh([LINK, '-S', ll] + libs + ['-o', final + '.l'])
    if rc:
        raise BuildError('llvm-link failed on %s:\n%s' % (job.harness, t))
    rc, t = sh([OPT, '-S', '-passes=mem2reg,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>', final + '.l',
                '-o', final])
    if rc:
        raise BuildError('opt failed on %s:\n%s' % (job.harness, t))
    return final


_modcache = {}


def load_module(path, entry, override=()):
    k = (path, entry)
    if k in _modcache:
        return _modcache[k]
    import irparse
    m = irparse.parse_module(open(path).read())
    # prune to what the entry can reach
    refs = {n: set(x[1:].strip('"') for _, ls in f['blocks'] for t in ls for x in t if x[0] == '@')
            for n, f in m.funcs.items()}
    grefs = {}
    for g, (ty, p) in m.globals.items():
        grefs[g[1:]] = set(x[1:].strip('"') for x in (p.t if p else []) if x[0] == '@') - {g[1:]}
    seen = set()
    todo = [entry] + ['vp_override_' + n for n in override]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo.extend(refs.get(n, ()))
        todo.extend(grefs.get(n, ()))
    if entry not in m.funcs:
        raise BuildError('no entry ' + entry)
    m.funcs = {n: f for n, f in m.funcs.items() if n in seen}
    m.globals = {g: v for g, v in m.globals.items() if g[1:] in seen}
    m.declared = {n for n in m.declared if n in seen}
    src, kv, callees = irparse.compile_module(m)
    _modcache[k] = (m, src, kv)
    return _modcache[k]


def sym_task(args):
    path, entry, opts, name = args
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    sys.path.insert(0, os.path.join(VERIF, 'engine'))
    try:
        import irsym
        m, src, kv = load_module(path, entry, opts.get('override', ()))
        irsym.Engine.ranges = {}
        e = irsym.Engine(m, src, kv, opts)
        t = time.time()
        e.explore(entry)
        return dict(name=name, stats=e.stats, reached=sorted(e.reached), funcs=sorted(e.funcs_seen), complete=e.complete,
                    cands=e.candidates, undecided=e.undecided_msgs, unsupported=e.unsupported, remaining=e.remaining,
                    samples=e.samples[:2], wall=time.time() - t)
    except BuildError as x:
        return dict(name=name, error=str(x))
    except Exception as x:
        return dict(name=name, error=traceback.format_exc())


# ------------------------------------------------------------------------------------------------ CBMC
def build_cbmc(d, job):
    gb = os.path.join(d, 'c_' + job.key() + '.gb')
    if not os.path.exists(gb):
        libgb = os.path.join(d, 'lib.gb')
        if not os.path.exists(libgb):
            rc, t = sh(['goto-cc', '-c', '-I', INC, '-o', os.path.join(d, 'x')] + lib_sources()[:0] or ['true'])
            objs = []
            ps = []
            for f in lib_sources():
                o = os.path.join(d, os.path.basename(f)[:-2] + '.gbo')
                ps.append((f, subprocess.Popen(['goto-cc', '-c', '-w', '-I', INC, f, '-o', o], stdout=subprocess.PIPE,
                                               stderr=subprocess.STDOUT, text=True)))
                objs.append(o)
            for f, p in ps:
                t = p.communicate()[0]
                if p.returncode:
                    raise BuildError('goto-cc failed on %s:\n%s' % (f, t))
            open(libgb, 'w').write('\n'.join(objs))
        objs = open(libgb).read().split('\n')
        for i, f in enumerate(lib_sources()):
            if inc_flags(job, f):
                objs[i] = gb + os.path.basename(f) + '.gbo'
                rc, t = sh(['goto-cc', '-c', '-w'] + inc_flags(job, f) + ['-I', INC, f, '-o', objs[i]])
                if rc:
                    raise BuildError('goto-cc failed on %s:\n%s' % (f, t))
        for i in range(len(objs)):      # functions the harness replaces
            if job.opts.get('override'):
                x = []
                for w in job.opts['override']:
                    x += ['--remove-function-body', w]
                sh(['goto-instrument'] + x + [objs[i], gb + os.path.basename(objs[i])])
                objs[i] = gb + os.path.basename(objs[i])
        ho = gb + '.o'
        rc, t = sh(['goto-cc', '-c', '-DVP_CBMC'] + ['-D' + x for x in job.defs] +
                   ['-I', HARN, '-I', INC, os.path.join(HARN, job.harness), '-o', ho])
        if rc:
            raise BuildError('goto-cc failed on harness %s:\n%s' % (job.harness, t))
        rc, t = sh(['goto-cc', ho] + objs + ['-o', gb])
        if rc:
            raise BuildError('goto-cc link failed:\n%s' % t)
    return gb


def cbmc_cmd(gb, job, unwind, extra=()):
    c = ['cbmc', gb, '--function', job.entry, '--unwind', str(unwind), '--unwinding-assertions',
         '--drop-unused-functions', '--no-malloc-may-fail', '--slice-formula', '--sat-solver', 'cadical', '--json-ui']
    c += job.opts.get('flags', ['--signed-overflow-check', '--conversion-check'][:1])
    us = [job.opts['unwindset']] if job.opts.get('unwindset') else []
    if job.opts.get('hunwind'):      # bound for the loops of the harness itself (they are not part of what is decided)
        rc, t = sh(['goto-instrument', '--show-loops', gb])
        us += ['%s:%d' % (m.group(1), job.opts['hunwind']) for m in
               re.finditer(r'^Loop (\S+):\n\s+file (\S+)', t, re.M) if m.group(2).endswith('/' + job.harness)]
    if us:
        c += ['--unwindset', ','.join(us)]
    return c + list(extra)


def cbmc_funcs(gb, entry):
    """the functions with a body that the entry calls, directly or not"""
    rc, t = sh(['goto-instrument', '--call-graph', gb])
    calls = {}
    for m in re.finditer(r'^(\S+) -> (\S+)$', t, re.M):
        calls.setdefault(m.group(1), set()).add(m.group(2))
    rc, t = sh(['goto-instrument', '--list-goto-functions', '--json-ui', gb])
    body = set(re.findall(r'"name": "([^"]+)",?\s*"sourceLocation"|"isBodyAvailable": true,[^{}]*?"name": "([^"]+)"', t))
    body = {a or b for a, b in body}
    seen, todo = set(), [entry]
    while todo:
        f = todo.pop()
        if f not in seen:
            seen.add(f)
            todo += calls.get(f, ())
    return sorted(f for f in seen if f in body or not body)


def run_json(cmd, timeout):
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, text=True,
                           errors='replace')
    except subprocess.TimeoutExpired:
        return None, time.time() - t
    try:
        return json.loads(r.stdout), time.time() - t
    except ValueError:
        return None, time.time() - t


def cbmc_task(args):
    gb, job, budget = args
    res = dict(name=job.name, cands=[], reached=[], undecided={}, unsupported={}, complete=True, remaining=[], funcs=[],
               samples=[], stats=dict(queries=0, solver_s=0.0, asserts=0, proved=0, undecided=0, paths=1), wall=0)
    t0 = time.time()
    res['funcs'] = cbmc_funcs(gb, job.entry)
    unwind = job.opts.get('unwind', 8)
    js = None
    for attempt in range(3):
        js, dt = run_json(cbmc_cmd(gb, job, unwind), max(5, budget - (time.time() - t0)))
        res['stats']['queries'] += 1
        res['stats']['solver_s'] += dt
        if js is None:
            res['undecided']['cbmc ended without a verdict (time or memory)'] = 1
            res['stats']['undecided'] += 1
            res['complete'] = False
            res['wall'] = time.time() - t0
            return res
        results = [r for m in js if 'result' in m for r in m['result']]
        unw = [r for r in results if '.unwind.' in r['property'] or 'unwinding assertion' in r.get('description', '') or
               '.recursion' in r['property']]
        if any(r['status'] == 'FAILURE' for r in unw):
            unwind = unwind * 2 + 1
            continue
        break
    else:
        res['undecided']['loop bound: unwinding assertion fails'] = 1
        res['stats']['undecided'] += 1
        res['complete'] = False
    if not results:
        res['error'] = 'cbmc gave no results: ' + json.dumps(js)[-800:]
        return res
    bad = []
    for r in results:
        d = r.get('description', '')
        if r in unw:
            continue
        if d.startswith('REACH: '):
            if r['status'] == 'FAILURE':
                res['reached'].append(d[7:])
            continue
        res['stats']['asserts'] += 1
        if r['status'] == 'FAILURE':
            bad.append(r)
        elif r['status'] == 'SUCCESS':
            res['stats']['proved'] += 1
        else:
            res['stats']['undecided'] += 1
            res['undecided'][d] = 1
    res['unwind'] = unwind
    # functions
    rc, t = sh(['goto-instrument', '--list-goto-functions', '--drop-unused-functions', gb]) if False else (0, '')
    for r in bad[:6]:
        js2, dt = run_json(cbmc_cmd(gb, job, unwind, ['--trace', '--property', r['property']]),
                           max(20, budget - (time.time() - t0)))
        res['stats']['queries'] += 1
        res['stats']['solver_s'] += dt
        if js2 is None:
            continue
        for q in [x for m in js2 if 'result' in m for x in m['result']]:
            if q['property'] != r['property'] or 'trace' not in q:
                continue
            ins = []
            for st in q['trace']:
                if st.get('stepType') == 'input' and st.get('inputID', '').startswith('vp_'):
                    v = st['values'][0]
                    ins.append((st['inputID'], '', cbmc_value(v)))
            kind = 'assert' if r['description'].startswith('VP: ') else 'mem'
            res['cands'].append(dict(kind=kind, msg=r['description'].replace('VP: ', ''), inputs=ins,
                                     stack=[r['property']]))
    res['wall'] = time.time() - t0
    return res


def cbmc_value(v):
    import struct
    b = v.get('binary')
    if v.get('name') == 'float' and b:
        n = int(b, 2).to_bytes(len(b) // 8, 'big')
        return repr(struct.unpack('>d' if len(b) == 64 else '>f', n)[0])
    if b:
        n = int(b, 2)
        if 'unsigned' not in v.get('type', '') and len(b) in (32, 64) and b[0] == '1':
            n -= 1 << len(b)
        return str(n)
    return str(v.get('data'))


# ------------------------------------------------------------------------------------------------ native replay
NATIVE = {
    'plain': ('gcc', ['-O1', '-g', '-ftrivial-auto-var-init=pattern']),
    'asan': ('gcc', ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
                     '-fno-omit-frame-pointer']),
    'msan': (CLANG, ['-O1', '-g', '-fsanitize=memory', '-fno-omit-frame-pointer']),
}


def build_native(d, job, variant):
    exe = os.path.join(d, 'n_%s_%s_%s' % (job.key(), job.entry, variant))
    if os.path.exists(exe):
        return exe
    cc, fl = NATIVE[variant]
    objs = []
    ps = []
    od = os.path.join(d, 'obj_' + variant)
    os.makedirs(od, exist_ok=True)
    fl2 = list(fl)
    if job.opts.get('override'):
        fl2 += ['-fPIC', '-fno-inline', '-fno-ipa-cp'] if cc == 'gcc' else ['-fPIC', '-fno-inline', '-fsemantic-interposition']
        od += '_w_' + '_'.join(sorted(job.opts['override']))
        os.makedirs(od, exist_ok=True)
    for f in lib_sources():
        o = os.path.join(od, (job.key() if inc_flags(job, f) else '') + os.path.basename(f)[:-2] + '.o')
        objs.append(o)
        if not os.path.exists(o):
            ps.append((f, o, subprocess.Popen([cc] + fl2 + inc_flags(job, f) + ['-w', '-c', '-I', INC, f, '-o', o], stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, text=True)))
    for f, o, p in ps:
        t = p.communicate()[0]
        if p.returncode:
            raise BuildError('native build failed on %s:\n%s' % (f, t))
        for w in job.opts.get('override', ()):
            sh(['objcopy', '--weaken-symbol=' + w, o])
    rc, t = sh([cc] + fl + ['-w'] + ['-D' + x for x in job.defs] + ['-DVP_NATIVE', '-DVP_ENTRY=' + job.entry, '-I', HARN, '-I', INC] + pyx_flags(d, job) +
              (['-Wl,--unresolved-symbols=ignore-all'] if job.pyx else []) + [
               os.path.join(HARN, job.harness), os.path.join(HARN, 'replay_rt.c')] + objs +
               ['-Wl,--defsym=%s=vp_override_%s' % (w, w) for w in job.opts.get('override', ())] + ['-lm', '-o', exe])
    if rc:
        raise BuildError('native harness build failed:\n%s' % t)
    return exe


def native_run(exe, variant, inputs, workdir, timeout=20):
    rp = os.path.join(workdir, 'inputs.txt')
    with open(rp, 'w') as f:
        for k, n, v in inputs:
            f.write('%s %s\n' % (k, v))
    outs = []
    envs = [{}]
    if variant == 'plain':
        envs = [{'MALLOC_PERTURB_': '0'}, {'MALLOC_PERTURB_': '85'}, {'MALLOC_PERTURB_': '255'}]
    for ev in envs:
        sc = tempfile.mkdtemp(dir=workdir)
        env = dict(os.environ, VP_REPLAY=rp, VP_SCRATCH=sc, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0',
                   UBSAN_OPTIONS='print_stacktrace=1', **ev)
        try:
            r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=sc,
                               text=True, errors='replace')
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = -99, 'timeout: did not end within %d s' % timeout
        shutil.rmtree(sc, ignore_errors=True)
        outs.append((rc, err))
        if rc not in (0, 77):
            break
    return outs[-1]


def is_failure(rc, err):
    if rc == 99 and 'VP_ASSERT_FAILED' in err:
        return 'assertion fails natively: ' + re.search(r'VP_ASSERT_FAILED (.*)', err).group(1)
    if 'AddressSanitizer' in err:
        return re.search(r'AddressSanitizer:? ?([^\n]*)', err).group(0)[:200]
    if 'MemorySanitizer' in err:
        return re.search(r'MemorySanitizer:? ?([^\n]*)', err).group(0)[:200]
    if 'runtime error:' in err:
        return re.search(r'[^\n]*runtime error:[^\n]*', err).group(0)[-200:]
    if rc < 0 and rc != -99:
        return 'killed by signal %d' % -rc
    if rc == -99:
        return err
    return None


def replay(d, job, cand):
    """returns (variant, description) when the counterexample shows on the real code"""
    order = {'assert': ['plain', 'asan', 'msan'], 'mem': ['asan', 'plain', 'msan'], 'uninit': ['msan', 'plain', 'asan']}
    for v in order.get(cand['kind'], ['asan', 'plain', 'msan']):
        exe = build_native(d, job, v)
        w = tempfile.mkdtemp(dir=d)
        rc, err = native_run(exe, v, cand['inputs'], w)
        shutil.rmtree(w, ignore_errors=True)
        f = is_failure(rc, err)
        cand.setdefault('replays', []).append('%s: rc=%d %s' % (v, rc, err.strip()[-300:].replace('\n', ' | ')))
        if f:
            return v, f
    return None


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                m = re.match(r'finding: property=(\S+) job=(\S+) match=(.*?) :: (.*)', l)
                if m:
                    out.append(dict(job=m.group(2), match=m.group(3), text=m.group(4)))
    return out


# ------------------------------------------------------------------------------------------------ run
def run(pid, tier=None):
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    sys.path.insert(0, os.path.join(VERIF, 'engine'))
    mod = importlib.import_module(pid)
    jobs = [j for j in mod.JOBS if j.tier == 'quick' or tier == 'thorough']
    if tier == 'quick':
        jobs = [j for j in jobs if j.tier != 'thorough']
    only = os.environ.get('VP_ONLY')
    if only:
        jobs = [j for j in jobs if re.search(only, j.name)]
    deadline = t0 + float(os.environ.get('VP_DEADLINE', getattr(mod, 'DEADLINE', {}).get(tier, 600 if tier == 'quick' else 6000)))
    d = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    pool = None
    try:
        return _run(pid, tier, seed, t0, mod, jobs, deadline, d)
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(d, ignore_errors=True)
        else:
            print('kept', d)


def merge(a, b):
    for k, v in b['stats'].items():
        a['stats'][k] = a['stats'].get(k, 0) + v
    a['reached'] = sorted(set(a['reached']) | set(b['reached']))
    a['funcs'] = sorted(set(a['funcs']) | set(b['funcs']))
    a['complete'] = a['complete'] and b['complete']
    a['cands'] += b['cands']
    for f in ('undecided', 'unsupported'):
        for k, v in b[f].items():
            a[f][k] = a[f].get(k, 0) + v
    a['samples'] = (a['samples'] + b['samples'])[:2]
    a['wall'] += b['wall']


def _run(pid, tier, seed, t0, mod, jobs, deadline, d):
    verbose = os.environ.get('VP_VERBOSE')
    errors = []
    os.makedirs(os.path.join(d, 'lib'))
    try:
        if any(j.engine == 'sym' for j in jobs):
            build_lib_ir(os.path.join(d, 'lib'))
        built = {}
        for j in jobs:
            k = (j.engine, j.key())
            if k not in built:
                built[k] = build_sym(d, j) if j.engine == 'sym' else (build_cbmc(d, j) if j.engine == 'cbmc' else None)
    except BuildError as x:
        print('ERROR: %s' % x)
        return 2
    # ---- verdicts: each counterexample is replayed on the real code as soon as it arrives
    kf = known_findings(pid)
    violations = []
    kf_hit = []
    unconfirmed = []
    seen = set()
    tries = {}

    def judge(j, c):
        name = j.name
        key = (name, c['kind'], c['msg'])
        if key in seen or tries.get(key, 0) >= 6 or time.time() > t0 + 840:
            return
        tries[key] = tries.get(key, 0) + 1
        try:
            rp = j.replay_fn(d, j, c) if hasattr(j, 'replay_fn') else (
                __import__('pysym').replay(j, c) if j.engine == 'py' else replay(d, j, c))
        except BuildError as x:
            errors.append(str(x))
            return
        if rp is None:
            unconfirmed.append(dict(job=name, **c))
            return
        seen.add(key)
        hit = [k for k in kf if k['job'] in (name, '*') and re.search(k['match'], c['msg'] + ' ## ' + rp[1])]
        if hit:
            kf_hit.append((hit[0], c))
        else:
            violations.append((j, c, rp))
    results = {}
    ctx = mp.get_context('fork')
    jobmap = {j.name: j for j in jobs}
    slice_s = 12.0
    grace = 60
    with ctx.Pool(NPROC, maxtasksperchild=None) as pool:
        pending = []
        stopped = set()

        def submit(j, prefix=None, first=False):
            rem = deadline - time.time()
            if j.engine == 'sym':
                o = dict(j.opts)
                o['budget_s'] = max(1.0, min(rem, o.get('budget_s', 1e9)))
                o['split_after'] = 3.0 if first else slice_s
                if prefix:
                    o['prefix'] = prefix
                pending.append((j, pool.apply_async(sym_task, ((built[('sym', j.key())], j.entry, o, j.name),))))
            elif j.engine == 'cbmc':
                pending.append((j, pool.apply_async(cbmc_task, ((built[('cbmc', j.key())], j,
                                min(rem, j.opts.get('budget_s', 300)) ),))))
            else:
                o = dict(j.opts)
                o['budget_s'] = max(1.0, min(rem, o.get('budget_s', 1e9)))
                import pysym
                pending.append((j, pool.apply_async(pysym.task, ((j.harness, j.entry, o, j.name),))))
        for j in sorted(jobs, key=lambda j: -j.weight):
            submit(j, first=True)
        while pending:
            nxt = []
            progressed = False
            for j, ar in pending:
                if not ar.ready():
                    nxt.append((j, ar))
                    continue
                progressed = True
                r = ar.get()
                if 'error' in r:
                    errors.append('%s: %s' % (j.name, r['error']))
                    continue
                if j.name in results:
                    merge(results[j.name], r)
                else:
                    results[j.name] = r
                rem = r.pop('remaining', [])
                R = results[j.name]
                nv = len(violations)
                for c in r['cands']:
                    judge(j, c)
                if violations and not nv:      # the verdict stands: let the others finish for a moment only
                    deadline = min(deadline, time.time() + 20)
                    grace = 2
                if rem:
                    if time.time() > deadline - 2 or len(R['cands']) >= 8:
                        R['complete'] = False
                        R['dropped'] = R.get('dropped', 0) + len(rem)
                    else:
                        pend2 = []
                        pending_save = pending
                        pending = pend2
                        for p in rem:
                            submit(j, p)
                        pending = pending_save
                        nxt.extend(pend2)
            pending = nxt
            if not progressed:
                time.sleep(0.05)
            if time.time() > deadline + grace:
                for j, ar in pending:
                    R = results.setdefault(j.name, dict(name=j.name, stats={}, reached=[], funcs=[], complete=False, cands=[],
                                                        undecided={}, unsupported={}, samples=[], wall=0))
                    R['complete'] = False
                    R['undecided']['no verdict before the deadline'] = 1
                pool.terminate()
                break
    rdir = os.path.join(VERIF, 'replays', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    rc = 0
    for k, c in {k['text']: (k, c) for k, c in kf_hit}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for i, (j, c, rp) in enumerate(violations):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (j.name, i))
        json.dump(dict(property=pid, job=j.name, harness=j.harness, entry=j.entry, defs=j.defs, kind=c['kind'], message=c['msg'],
                       inputs=c['inputs'], variant=rp[0], shown=rp[1], how='python3-vt /verif/engine/vp.py --replay ' + path),
                  open(path, 'w'), indent=1)
        print('%s: %s (%s) [%s]' % (j.name, c['msg'], rp[1], c['kind']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    # ---- vacuity
    for j in jobs:
        if j.name not in results:
            continue
        R = results[j.name]
        need = set(j.reach or ['end'])
        miss = need - set(R['reached'])
        if miss and not violations and not R['cands']:
            if R['complete'] and not R['unsupported'] and not R['undecided']:
                errors.append('%s: vacuous, never reached %s' % (j.name, sorted(miss)))
            else:
                R['undecided']['witness %s not reached within the budget' % sorted(miss)] = 1
    und = []
    for name, R in results.items():
        if not R['complete']:
            und.append('%s: exploration cut by the budget (%s prefixes left)' % (name, R.get('dropped', '?')))
        for k, v in list(R['undecided'].items()) + list(R['unsupported'].items()):
            und.append('%s: %s (x%d)' % (name, k, v))
    for u in und:
        print('UNDECIDED ' + u)
    for u in unconfirmed:
        print('UNCONFIRMED %s: %s %s (the solver\'s values do not show it on the real code) %s' % (
            u['job'], u['kind'], u['msg'], '; '.join(u.get('replays', [])) if verbose else ''))
        if verbose:
            print('   inputs', u['inputs'][:40])
    for e in errors:
        print('ERROR ' + e)
    # ---- evidence
    tot = {}
    for R in results.values():
        for k, v in R['stats'].items():
            tot[k] = tot.get(k, 0) + v
    text = '\n'.join(open(f, errors='replace').read() for f in lib_sources())
    ours = set(re.findall(r'^[A-Za-z_][\w \t*]*?\b(\w+)[ \t]*\(', text, re.M))
    funcs = set(f for R in results.values() for f in R['funcs'] if f in ours)
    # of the bindings: the generated functions __pyx_pf_/__pyx_pw_<mangled names>
    wraps = set(f for R in results.values() for f in R['funcs'] if f.startswith(('__pyx_pw_', '__pyx_pf_', '__pyx_f_4optv')))
    funcs = sorted(funcs | wraps)
    cov = dict(
        explanation=getattr(mod, 'EXPLANATION', '') + ' Every path of each harness is executed symbolically over the encoding '
        'regenerated from %s; each assertion is an SMT query over all inputs of that path.' % REPO,
        functions_encoded=funcs,
        bounds={j.name: j.bounds for j in jobs},
        paths=tot.get('paths', 0), paths_completed=tot.get('completed', 0), forks=tot.get('forks', 0),
        solver_queries=tot.get('queries', 0), solver_s=round(tot.get('solver_s', 0), 2),
        assertions_checked=tot.get('asserts', 0), assertions_unsat=tot.get('proved', 0),
        assertions_true_without_query=tot.get('trivially_true', 0), undecided=tot.get('undecided', 0),
        undecided_detail=und[:50], values_concretised=tot.get('concretised', 0),
        unconfirmed_counterexamples=len(unconfirmed),
        vacuity_witnesses={n: R['reached'] for n, R in results.items()},
        exhaustive=not und and not errors,
        samples=[dict(job=n, reached=s[0], inputs=['%s %s=%s' % tuple(x) for x in s[1][:30]])
                 for n, R in results.items() for s in R['samples'][:1]][:12],
        jobs={n: dict(paths=R['stats'].get('paths', 0), queries=R['stats'].get('queries', 0),
                      solver_s=round(R['stats'].get('solver_s', 0), 2), asserts=R['stats'].get('asserts', 0),
                      complete=R['complete'], cpu_s=round(R['wall'], 1)) for n, R in results.items()},
        known_findings=[k['text'] for k, _ in kf_hit])
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d paths, %d assertions (%d unsat), %d queries, %.1f s solver, %.1f s wall, %d undecided' % (
        pid, tier, len(results), tot.get('paths', 0), tot.get('asserts', 0), tot.get('proved', 0), tot.get('queries', 0),
        tot.get('solver_s', 0), time.time() - t0, len(und)))
    if verbose:
        for n, R in sorted(results.items()):
            print('   %-40s paths %6d asserts %6d queries %6d solver %.1f cpu %.1f %s' % (
                n, R['stats'].get('paths', 0), R['stats'].get('asserts', 0), R['stats'].get('queries', 0),
                R['stats'].get('solver_s', 0), R['wall'], '' if R['complete'] else 'INCOMPLETE'))
    if rc:
        return 1
    if errors:
        return 2
    return 0


def do_replay(path):
    r = json.load(open(path))
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    mod = importlib.import_module(r['property'])
    j = [x for x in mod.JOBS if x.name == r['job']][0]
    d = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        if j.engine == 'py':
            print(__import__('pysym').replay(j, dict(kind=r['kind'], inputs=r['inputs'], msg=r['message'])))
            return 0
        exe = build_native(d, j, r['variant'])
        rc, err = native_run(exe, r['variant'], r['inputs'], d)
        print(err)
        print('exit', rc)
        return 1 if is_failure(rc, err) else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(do_replay(sys.argv[2]))
    sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
