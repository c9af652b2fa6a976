#!/usr/bin/env python3
"""Driver of every check:  check.py <property> [quick|thorough]

Builds the code under test from /repo's working tree in a private scratch
directory, runs the harness sharded over the cores, re-runs every reported case
alone before believing it, filters known findings, writes the evidence file.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run (tree does not build, ...).
"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, glob, struct, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
from config import CHECKS

NCPU = min(8, os.cpu_count() or 8)
BASE = ['-std=c++11', '-pthread', '-DUSE_PTHREAD', '-DHAS_NUMPY_DEV', '-w',
        '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-DJSON_DLL_BUILD', '-DSOL_EXPORTS', '-Dsol_EXPORTS']

class Broken(Exception):
    pass

def includes():
    inc = ['-I%s/include' % REPO, '-I%s/external' % REPO, '-I' + HERE]
    for d in glob.glob('/usr/lib/python3*/dist-packages/numpy/core/include') + glob.glob('/usr/include/python3.*'):
        inc.append('-I' + d)
    return inc

MODES = {
    'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'plain': ['-O1', '-g1'],
    # race-instrumented code; the run-time is ours (vpsched.cc), not libtsan
    'sched': ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer'],
}
LINK = {'asan': ['-fsanitize=address'], 'plain': [], 'sched': ['-rdynamic']}

def lib_sources():
    s = []
    for root, _, files in os.walk(os.path.join(REPO, 'src', 'sol')):
        s += [os.path.join(root, f) for f in files if f.endswith('.cc')]
    return sorted(s) + [os.path.join(REPO, 'external/json/jsoncpp.cpp')]

_cache = os.environ.get('VP_CACHE')
_hdr_hash = None
def hdr_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha1()
        for top in (REPO + '/include', REPO + '/external', HERE):
            for root, _, files in sorted(os.walk(top)):
                for f in sorted(files):
                    if f.endswith('.h'):
                        h.update(f.encode()); h.update(open(os.path.join(root, f), 'rb').read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash

def compile_one(src, obj, flags):
    key = None
    if _cache:
        key = os.path.join(_cache, hashlib.sha1((hdr_hash() + hashlib.sha1(open(src, 'rb').read()).hexdigest() + ' '.join(flags) + src).encode()).hexdigest() + '.o')
        if os.path.exists(key):
            shutil.copy(key, obj); return
    r = subprocess.run(['g++'] + flags + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken('cannot compile %s\n%s' % (src, r.stdout[-4000:]))
    if key:
        os.makedirs(_cache, exist_ok=True); shutil.copy(obj, key)

def build_py(work, cfg):
    """the Python binding (python/pysol.pyx with the library inside, as setup.py builds it) and a script that runs the harness"""
    inc = includes(); lib = []; jobs = []
    for s in sorted(lib_sources(), key=lambda f: -os.path.getsize(f)):
        o = os.path.join(work, '%d.o' % len(jobs)); lib.append(o)
        jobs.append((s, o, [x for x in BASE if x != '-DUSE_PTHREAD'] + ['-DUSE_STD_THREAD', '-fPIC', '-O0' if s.endswith('jsoncpp.cpp') else '-O1'] + inc))
    for f in ('pysol.pyx', 'pysol.pxd'): shutil.copy(os.path.join(REPO, 'python', f), work)
    def binding():
        r = subprocess.run(['cython', '--cplus', '-2', '-X', 'c_string_type=str,c_string_encoding=utf8,legacy_implicit_noexcept=True', 'pysol.pyx', '-o', 'pysol.cpp'],
                           cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise Broken('cannot translate python/pysol.pyx\n' + r.stdout[-3000:])
        compile_one(os.path.join(work, 'pysol.cpp'), os.path.join(work, 'pysol.o'), ['-std=c++11', '-w', '-fPIC', '-O0', '-DHAS_NUMPY_DEV', '-DUSE_STD_THREAD'] + inc)
        r = subprocess.run(['gcc', '-O1', '-w', '-fPIC', '-c', os.path.join(HERE, 'pyshim.c'), '-o', os.path.join(work, 'shim.o')])
        if r.returncode != 0: raise Broken('cannot compile pyshim.c')
    with ThreadPoolExecutor(NCPU) as ex:
        b = ex.submit(binding); list(ex.map(lambda j: compile_one(*j), jobs)); b.result()
    wrap = ['-Wl,--wrap=sol_' + x for x in ('CreateModel', 'RestoreModel', 'ReleaseModel', 'CreateDataIter', 'ReleaseDataIter', 'Train', 'Test', 'SaveModel')]
    r = subprocess.run(['g++', '-shared', '-pthread', os.path.join(work, 'pysol.o'), os.path.join(work, 'shim.o')] + lib + wrap + ['-o', os.path.join(work, 'pysol.so'), '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise Broken('cannot link the Python binding\n' + r.stdout[-3000:])
    exe = os.path.join(work, 'harness')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\nexport PYTHONMALLOC=debug PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VP_REPO=%s VP_SO=%s/pysol.so PYTHONPATH=%s:%s OPENBLAS_NUM_THREADS=1\nexec python3 -s %s/%s "$@"\n' % (REPO, work, work, HERE, HERE, cfg['py']))
    os.chmod(exe, 0o755)
    return exe

def build(work, cfg):
    if cfg.get('py'): return build_py(work, cfg)
    mode = cfg.get('mode', 'asan')
    inc = includes()
    jobs = []
    objs = []
    def add(src, flags, into):
        obj = os.path.join(work, '%d_%s.o' % (len(jobs), os.path.basename(src)))
        jobs.append((src, obj, flags)); into.append(obj)
    lib = []
    srcs = lib_sources()
    # biggest files first
    srcs.sort(key=lambda f: (-(f.endswith('jsoncpp.cpp')), -os.path.getsize(f)))
    if cfg.get('lib', True):
        for s in srcs:
            if s.endswith('jsoncpp.cpp'):
                fl = BASE + ['-O0'] + inc          # third-party; not instrumented
            else:
                fl = BASE + cfg.get('defs', []) + MODES[mode] + cfg.get('libflags', []) + inc
            add(s, fl, lib)
    exes = []
    harness_objs = []
    for s in cfg['src']:
        fl = BASE + cfg.get('defs', []) + (cfg['hflags'] if 'hflags' in cfg else MODES['plain' if mode == 'sched' else mode]) + inc
        add(os.path.join(HERE, s), fl, harness_objs)
    for s in cfg.get('src_instr', []):   # harness parts that are instrumented like the library
        add(os.path.join(HERE, s), BASE + cfg.get('defs', []) + MODES[mode] + inc, harness_objs)
    exes.append(('harness', harness_objs))
    for name, s in cfg.get('tools', {}).items():
        o = []
        add(os.path.join(REPO, s), BASE + cfg.get('defs', []) + MODES[mode] + inc, o)
        exes.append((name, o))
    with ThreadPoolExecutor(NCPU) as ex:
        # harness first: usually the slowest single file
        order = sorted(jobs, key=lambda j: 0 if j[0].startswith(HERE) else 1)
        list(ex.map(lambda j: compile_one(*j), order))
        def link(e):
            name, o = e
            r = subprocess.run(['g++', '-pthread'] + LINK[mode] + o + lib + ['-o', os.path.join(work, name), '-ldl'] + cfg.get('ldflags', []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise Broken('cannot link %s\n%s' % (name, r.stdout[-4000:]))
        list(ex.map(link, exes))
    return os.path.join(work, 'harness')

def env_for(work, tag):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=1500:log_path=%s/asan.%s:handle_abort=1:detect_stack_use_after_return=0' % (work, tag)
    e['LC_ALL'] = 'C'
    e['VP_BIN'] = work + '/p0'
    e.pop('MALLOC_PERTURB_', None)
    return e

def run_shard_(work, exe, i, n, tier, extra_args, limit, tag=None, only=None, verbose=False):
    tag = tag or 's%d' % i
    out = os.path.join(work, tag)
    scratch = os.path.join(work, tag + '.d'); os.makedirs(scratch, exist_ok=True)
    cmd = [exe, '--shard', str(i), '--nshards', str(n), '--out', out, '--scratch', scratch] + extra_args
    if tier == 'thorough': cmd.append('--thorough')
    if only is not None: cmd += ['--only', str(only)]
    so = subprocess.DEVNULL
    if verbose:
        cmd.append('--verbose'); so = open(out + '.log', 'wb')
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=so, stderr=so, env=env_for(work, tag), start_new_session=True, stdin=subprocess.DEVNULL, cwd=scratch)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = 'timeout'
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass
    shutil.rmtree(scratch, ignore_errors=True)
    res = {'rc': rc, 'out': out, 'wall': time.time() - t0, 'viol': [], 'json': None, 'cur': -1}
    if os.path.exists(out + '.viol'):
        for l in open(out + '.viol', errors='replace'):
            q = l.rstrip('\n').split('\x1f')
            if len(q) == 3: res['viol'].append((q[0], int(q[1]), q[2]))
    if os.path.exists(out + '.json'):
        try: res['json'] = json.load(open(out + '.json'))
        except Exception: pass
    if os.path.exists(out + '.cur'):
        b = open(out + '.cur', 'rb').read(16)
        if len(b) == 16: res['cur'] = struct.unpack('qq', b)[0]
    res['asan'] = ''
    for f in glob.glob('%s/asan.%s*' % (work, tag)):
        res['asan'] += open(f, errors='replace').read()[:6000]
    return res

def crash_key(r):
    """identify an abnormal end by what happened, not by addresses"""
    import re
    if r['rc'] in (78, 'timeout'): return 'hang'
    m = re.search(r'SUMMARY: AddressSanitizer: (\S+)', r['asan'])
    if m: return 'crash:' + m.group(1)
    if isinstance(r['rc'], int) and r['rc'] < 0:
        try: return 'crash:' + signal.Signals(-r['rc']).name
        except ValueError: return 'crash:signal%d' % -r['rc']
    return 'crash:exit%s' % r['rc']

def load_known(pid):
    known = {}
    f = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                q = l.split(' ', 3)
                key = q[2].split('=', 1)[1]
                known[key] = q[3] if len(q) > 3 else key
    return known

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    cfg = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evdir = os.path.join(VERIF, 'evidence'); os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid, dir=os.environ.get('VP_TMP', '/tmp'))
    try:
        return run(pid, tier, cfg, work, evdir, seed, t0)
    except Broken as e:
        sys.stderr.write('CHECK-ERROR %s: %s\n' % (pid, e))
        return 2
    finally:
        if os.environ.get('VP_KEEP'): print('kept', work)
        else: shutil.rmtree(work, ignore_errors=True)

def passes_of(cfg):
    # a check may have several passes: the full exploration without, and a shallower one with address sanitiser
    passes = [(cfg, list(cfg.get('args', [])))]
    if cfg.get('std_pass'): passes.append((dict(cfg, defs=['-UUSE_PTHREAD', '-DUSE_STD_THREAD=1'], also=[]), ['--shallow']))   # the other threading layer
    if cfg.get('asan_pass'): passes.append((dict(cfg, mode='asan', also=[]), ['--shallow']))
    for sub in cfg.get('also', []): passes.append((sub, list(sub.get('args', []))))   # further harnesses of the property
    return passes

def run(pid, tier, cfg, work, evdir, seed, t0):
    passes = passes_of(cfg)
    exes = []
    for k, (c, _) in enumerate(passes):
        d = os.path.join(work, 'p%d' % k); os.makedirs(d); exes.append(build(d, c))
    tb = time.time() - t0
    n = cfg.get('shards', NCPU)
    limit = cfg.get('limit', 700) if tier == 'quick' else cfg.get('tlimit', 3600 * 3)
    def run_shard(work, _exe, i, n, tier, _args, limit, tag=None, **kw):   # i = pass * n + shard
        args = [a for a in _args if a not in passes[0][1]] + passes[i // n][1]
        if tier == 'quick' and kw.get('only') is None:   # a tree that needs far longer is explored less deeply rather than not answered
            gone = time.time() - t0
            args = args + ['--soft', str(max(20, int(360 - gone))), '--budget', str(max(60, int(600 - gone)))]
        return run_shard_(work, exes[i // n], i % n, n, tier, args, limit, tag=tag or 's%d' % i, **kw)
    exe = None; extra = passes[0][1]
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda i: run_shard(work, exe, i, n, tier, extra, limit), range(n * len(passes))))
    viol = []       # (key, case, msg)
    problems = []
    for i, r in enumerate(rs):
        for v in r['viol']: viol.append(v + (i,))
        if r['rc'] != 0:
            problems.append((i, r))
    # abnormal ends: re-run the very case alone (longer hang limit) to confirm
    for i, r in problems[:4]:
        c = r['cur']
        k = crash_key(r)
        if c < 0:
            # outside any case: re-run the shard
            r2 = run_shard(work, exe, i, n, tier, extra + ['--hang', '120'], limit, tag='rr%d' % i)
            if r2['rc'] != 0: viol.append((crash_key(r2), -1, 'harness process ended abnormally outside a case: ' + r2['asan'][:1500], i))
            continue
        r2 = run_shard(work, exe, i, n, tier, extra + ['--hang', '120'], 300, tag='cr%d' % i, only=c, verbose=True)
        if r2['rc'] != 0:
            k = crash_key(r2)
            log = open(r2['out'] + '.log', errors='replace').read()[-3000:]
            viol.append((k + cfg.get('crash_suffix', ''), c, 'abnormal end (%s) in case %d\n%s\n%s' % (k, c, log, r2['asan'][:3000]), i))
        elif r2['viol']:
            viol += [v + (i,) for v in r2['viol']]
        else:
            # state carried over between cases: confirm with the whole shard
            r3 = run_shard(work, exe, i, n, tier, extra + ['--hang', '120'], limit, tag='cs%d' % i)
            if r3['rc'] != 0:
                viol.append((crash_key(r3), r3['cur'], 'abnormal end in shard %d at case %d (not alone): %s' % (i, r3['cur'], r3['asan'][:3000]), i))
    known = load_known(pid)
    seen_known, real = {}, []
    byk = {}
    for v in viol: byk.setdefault(v[0], v)
    confirm_left = 6
    for k, v in sorted(byk.items()):
        if k in known:
            seen_known[k] = v; continue
        if v[1] >= 0 and not k.startswith(('crash', 'hang')):
            if real and confirm_left <= 0: continue
            confirm_left -= 1
            r2 = run_shard(work, exe, v[3], n, tier, extra, 300, tag='cf%d' % len(real), only=v[1], verbose=True)
            ok = any(x[0] == k for x in r2['viol']) or r2['rc'] != 0
            log = ''
            if os.path.exists(r2['out'] + '.log'): log = open(r2['out'] + '.log', errors='replace').read()[:6000]
            if not ok:
                # depends on earlier cases of the shard: re-run the shard
                r3 = run_shard(work, exe, v[3], n, tier, extra, limit, tag='cg%d' % len(real))
                ok = any(x[0] == k for x in r3['viol'])
            if not ok:
                sys.stderr.write('note: %s case %d not reproduced; ignored\n' % (k, v[1])); continue
            real.append((k, v[1], v[2], log, v[3] // n))
        else:
            real.append((k, v[1], v[2], '', v[3] // n))
    for k in sorted(known):
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    unfinished = [i for i, r in enumerate(rs) if r['json'] is None]
    # evidence
    states = set()
    tot = dict(cases=0, transitions=0, traces=0); samples = []; extras = {}; total = 0; capped = False
    for r in rs:
        f = r['out'] + '.states'
        if os.path.exists(f):
            b = open(f, 'rb').read()
            states.update(struct.unpack('%dQ' % (len(b) // 8), b))
        j = r['json']
        if j:
            for x in tot: tot[x] += j[x]
            total = max(total, j['total_cases']); samples += j['samples']; capped |= j['capped']
            for kk, vv in j['extra'].items(): extras[kk] = extras.get(kk, 0) + vv
    cov = {'samples': samples[:6] or ['(none)'], 'evaluations': tot['cases'], 'exhaustive': (not capped and not unfinished and not real),
           'bounds': cfg['bounds_thorough' if tier == 'thorough' and 'bounds_thorough' in cfg else 'bounds']}
    cov['states'] = len(states); cov['transitions'] = tot['transitions']; cov['traces_validated_against_impl'] = tot['traces']
    cov['rule'] = cfg['rule']; cov['distinct_nontrivial'] = len(states)
    cov['build_s'] = round(tb, 1)
    cov.update(extras)
    if seen_known: cov['known_findings_seen'] = sorted(seen_known)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': cfg.get('level', 'model_checking'),
          'coverage': cov, 'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    for k, c, msg, log, ps in real[:5]:
        rp = os.path.join(evdir, 'replay-%s-%s.txt' % (pid, hashlib.sha1(k.encode()).hexdigest()[:8]))
        with open(rp, 'w') as f:
            f.write('property %s\nkey %s\ncase %d\ntier %s\nreplay: python3 mc/replay.py %s %s %d %d\n\n%s\n\n%s\n' % (pid, k, c, tier, pid, tier, c, ps, msg, log))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  %s: %s' % (k, msg[:600]))
    if real: return 1
    if unfinished:
        for i in unfinished:
            sys.stderr.write('CHECK-ERROR %s: shard %d ended with %s and gave no reproducible result\n%s\n' % (pid, i, rs[i]['rc'], rs[i]['asan'][:1500]))
        return 2
    print('OK property=%s tier=%s cases=%d/%d states=%d transitions=%d traces=%d build=%.1fs wall=%.1fs%s' %
          (pid, tier, tot['cases'], total, len(states), tot['transitions'], tot['traces'], tb, time.time() - t0, ' CAPPED' if capped else ''))
    return 0

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
