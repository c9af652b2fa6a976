# C27: the experiment scripts (experiments/, ofs/).
import os, sys, types, itertools, shutil, io, re, pickle, logging, copy, shlex, hashlib, collections
import numpy as np
import vp, py2, pysolref
logging.disable(logging.CRITICAL)
np.seterr(all='ignore')
if not hasattr(np, 'int'): np.int = int      # dropped by newer numpy releases
import warnings; warnings.simplefilter('ignore')
R = os.environ['VP_REPO']

def h(*k): return int(hashlib.sha1(repr(k).encode()).hexdigest()[:4], 16) / 65536.0
def canon(d): return tuple(sorted((k, repr(v)) for k, v in d.items()))

# --- stand-ins: a clock that only advances by what was done, data sets, models, cross validation
class Clock(object): now = 0.0
class Data(object):
    def __init__(self, name, work, dtype='svm', cls=2, dim=10, data_num=20): self.name, self.work_dir, self.dtype, self.class_num, self.dim, self.data_num, self.pass_num, self.data_path, self.log = name, work, dtype, cls, dim, data_num, 1, name + '.data', []
    shuffles = 0
    def rand_path(self, tgt_type=None, force=False):
        if force or not Data.shuffles: Data.shuffles += 1; self.log.append('shuffle')
        return 'shuffle%d.%s' % (Data.shuffles, tgt_type or self.dtype)
    def convert(self, t): return self.data_path if t == self.dtype else self.name + '.' + t
class SOL(object):
    made = []
    def __init__(self, algo=None, class_num=-1, **params): self.k = (algo, class_num, canon(params)); self.cb = None; SOL.made.append(self.k)
    def inspect_learning(self, cb): self.cb = cb
    def fit(self, path, typ, passes=1):
        self.k += (path, typ, passes); Clock.now += h('t', *self.k)
        for i in range(3):
            if self.cb: self.cb(*log_row(self.k, i))
        return h('fit', *self.k)
    def score(self, path, typ): Clock.now += h('s', path, typ, *self.k); return h('score', path, typ, *self.k)
def log_row(k, i): return [4 << i, i + 1, int(h('u', i, *k) * 100), h('e', i, *k)]
class CV(object):
    done = []
    def __init__(self, data, folds, cv_params, extra={}, process_num=1): self.a = (data.name, folds, canon({k: list(v) for k, v in cv_params.items()}), canon(extra)); self.p = {k: sorted(v, key=lambda x: h('cv', x))[0] for k, v in cv_params.items()}; self.procs = process_num
    def train_val(self, algo): CV.done.append((algo,) + self.a)
    def get_best_param(self): return dict(self.p), 0
    def save_results(self, path): open(path, 'w').write(repr(self.p))
    @staticmethod
    def load_results(path): return eval(open(path).read())
PLOTS = []
fig = types.ModuleType('fig'); fig.plot = lambda xs, ys, xl, yl, legends, out, **kw: PLOTS.append((list(map(list, xs)), list(map(list, ys)), xl, yl, list(legends), out, kw))
OTHER = []
def other(name, n):
    def f(dtrain, dtest, *a, **kw):
        OTHER.append((name, dtrain.name, dtest.name, a, canon({k: (list(v) if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in kw.items()})))
        return tuple([int(h(name, i, len(OTHER)) * 10) if n == 5 and i == 0 else h(name, i, len(OTHER)) for i in range(n)])
    return f
def module(name, **k):
    m = types.ModuleType(name)
    for a, b in k.items(): setattr(m, a, b)
    return m
import time as real_time, subprocess
clock = types.ModuleType('time'); clock.__dict__.update(real_time.__dict__)
for k in ('time', 'clock', 'perf_counter', 'monotonic', 'process_time'): setattr(clock, k, lambda: Clock.now)
def load(rel, name, extra):
    sys.modules.update(extra)
    sys.modules['time'] = clock
    try: return py2.load(os.path.join(R, rel), name)
    finally: sys.modules['time'] = real_time
PROGRAMS = [None]        # what the scripts call by the shell
def shell(cmd, *a, **kw): return PROGRAMS[0](cmd if isinstance(cmd, str) else ' '.join(shlex.quote(x) for x in cmd))
def shell_checked(cmd, *a, **kw):
    r = shell(cmd)
    if r: raise subprocess.CalledProcessError(r, cmd)
    return 0
os.system = shell; subprocess.call = shell; subprocess.check_call = shell_checked
sys.modules['cPickle'] = pickle
SOLPKG = {'sol': module('sol'), 'sol.dataset': module('sol.dataset', DataSet=Data), 'sol.cv': module('sol.cv', CV=CV), 'pysol': module('pysol', SOL=SOL), 'fig': fig}

def captured(fn):
    old = sys.stdout; sys.stdout = io.StringIO()
    try: fn(); return sys.stdout.getvalue()
    finally: sys.stdout = old

# --- experiment.py: histories of experiments that share their cache
def algos(): return collections.OrderedDict([
    ('ogd', {'params': {'eta': 0.5, 'step_show': 2}}), ('arow', {'cv': {'r': [1, 2, 4]}, 'params': {'norm': 'L2'}}), ('PA', {}), ('pa1', {'cv': {'C': np.array([0.5, 2.0])}}),
    ('liblinear', {'cv': {'C': [1, 2]}}), ('vw', {'cv': {'learning_rate': [1, 2]}, 'params': {'b': 3}})])
SETS = [('ogd',), ('arow', 'PA'), ('ogd', 'arow', 'liblinear', 'vw'), ('PA', 'ogd', 'pa1')]
EXPS = [(s, r, t) for s in range(len(SETS)) for r in (1, 3) for t in (None, 'all', 'one')]
def ol_model(algo, params, k, folds): return (algo.lower(), 2, canon(params), 'shuffle%d.svm' % k, 'svm', 1)
def experiments():
    for seq in vp.sequences(len(EXPS), 1, 3 if vp.C.thorough else 2):
        if not vp.take(): continue
        t = ' then '.join('%s x%d retrain=%s' % (','.join(SETS[s]), r, q) for s, r, q in (EXPS[i] for i in seq)); vp.describe(t); vp.sample(t)
        w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        Data.shuffles = 0; Clock.now = 0; res, logs, best = {}, {}, {}      # the reference
        for n, i in enumerate(seq):
            names, repeat, q = SETS[EXPS[i][0]], EXPS[i][1], EXPS[i][2]
            m = load('experiments/experiment.py', 'vp_experiment', dict(SOLPKG, liblinear=module('liblinear', train_test_l2=other('liblinear', 4))))
            m.vw = module('vw', train_test=other('vw', 4))
            opts = collections.OrderedDict((a, algos()[a]) for a in names); given = copy.deepcopy(opts)
            retr = None if q is None else ['all'] if q == 'all' else [names[-1]]
            d, e = Data('dt_train', w), Data('dt_test', w, 'svm'); del PLOTS[:], OTHER[:], CV.done[:], SOL.made[:]; s0 = Data.shuffles; first = not os.path.exists(os.path.join(w, 'c.pkl')); vp.step()
            try: text = captured(lambda: m.exp_ol(d, e, opts, os.path.join(w, 'c.pkl'), repeat=repeat, retrains=retr, fold_num=3, cv_process_num=2, draw_opts={'train-error': {'logx': True}, 'update-num': {}}))
            except (Exception, SystemExit) as x: vp.fail('C27:raised', '%s :: experiment %d raised %s %r' % (t, n + 1, type(x).__name__, x)); break
            bad = None
            todo = [a for a in names if a.lower() not in res or q == 'all' or (q == 'one' and a == names[-1])]
            sol = [a for a in todo if a not in ('liblinear', 'vw')]
            if Data.shuffles - s0 != repeat and todo: bad = 'shuffles|%d shufflings of the training data for %d repetitions' % (Data.shuffles - s0, repeat)
            # cross validations: once per algorithm, with its own parameters
            wantcv = [(a.lower(), 'dt_train', 3, canon({k: list(v) for k, v in given[a]['cv'].items()}), canon(given[a].get('params', {}))) for a in sol if 'cv' in given[a] and a.lower() not in best]
            if not bad and sorted(CV.done) != sorted(wantcv): bad = 'cross-validation|cross validations %s instead of %s' % (CV.done, wantcv)
            for a in sol:
                if 'cv' in given[a]: best[a.lower()] = CV(d, 3, given[a]['cv']).get_best_param()[0]
            # results
            calls = collections.Counter(c[0] for c in OTHER)
            for a in ('liblinear', 'vw'):
                if not bad and calls[a] != (repeat if a in todo else 0): bad = 'runs|%s was run %d times for %d repetitions' % (a, calls[a], repeat if a in todo else 0)
            for c in OTHER:
                o = given[c[0]]; kw = dict(C=o['cv']['C'], fold_num=3) if c[0] == 'liblinear' else dict(model_params=o['params'], cv_params=o['cv'], fold_num=3, cv_process_num=2)
                if not bad and (c[1:3] != ('dt_train', 'dt_test') or c[4] != canon(kw)): bad = 'arguments|%s was run with %s' % (c[0], c)
            for a in todo:
                al = a.lower(); rows = []
                for rid in range(repeat):
                    if a in ('liblinear', 'vw'):
                        idx = [k for k, c in enumerate(OTHER) if c[0] == a]
                        rows.append([h(a, z, idx[rid] + 1) for z in range(4)] if rid < len(idx) else [0] * 4); continue
                    p = dict(given[a].get('params', {})); p.update(best.get(al, {})); k = ol_model(a, p, s0 + rid + 1, 3)
                    rows.append([h('score', 'dt_test.data', 'svm', *k), h('s', 'dt_test.data', 'svm', *k), h('fit', *k), h('t', *k)])
                    if rid == 0: logs[al] = []
                    logs[al].append(np.array([log_row(k, z) for z in range(3)]))
                res[al] = np.array(rows)
            if not bad and len(SOL.made) != len(sol) * repeat: bad = 'runs|%d models trained for %d algorithms and %d repetitions' % (len(SOL.made), len(sol), repeat)
            saved = pickle.load(open(os.path.join(w, 'c.pkl'), 'rb'))
            if not bad and (sorted(saved['res']) != sorted(res) or any(np.shape(saved['res'][a]) != res[a].shape or not np.allclose(saved['res'][a], res[a]) for a in res)): bad = 'results|saved results %s instead of %s' % (saved['res'], res)
            # the table
            for a in names:
                if bad: break
                v = res[a.lower()]; mean, std = v.mean(axis=0), v.std(axis=0, ddof=1 if len(v) > 1 else 0)
                rows = [l for l in text.split('\n') if l.split() and l.split()[0] == a]
                if len(rows) != 1: bad = 'table|%d rows for %s' % (len(rows), a); break
                got = [tuple(map(float, x)) for x in re.findall(r'(-?[\d.]+|nan)\+/-(-?[\d.]+|nan)', rows[0])]
                if len(got) != 4 or not np.allclose(got, list(zip(mean, std)), atol=6e-5): bad = 'table|%s shown as %s instead of %s' % (a, got, list(zip(mean, std)))
            # the figures
            lines = [a for a in names if a not in ('liblinear', 'vw')]
            if not bad and len(PLOTS) != 2: bad = 'figures|%d figures' % len(PLOTS)
            for col, label in ((3, 'Error'), (2, 'Update')):
                if bad: break
                f = [p for p in PLOTS if label in p[3]]
                if len(f) != 1 or f[0][4] != lines or f[0][6] != ({'logx': True} if col == 3 else {}): bad = 'figures|figures %s for %s' % ([(p[3], p[4]) for p in PLOTS], lines); break
                for z, a in enumerate(lines):
                    L = logs[a.lower()]
                    if f[0][0][z] != [4, 8, 16] or not np.allclose(f[0][1][z], sum(x[:, col] for x in L) / len(L)): bad = 'figures|%s of %s drawn as %s, %s' % (label, a, f[0][0][z], f[0][1][z])
            if bad: vp.fail('C27:ol-' + bad.split('|')[0], '%s :: experiment %d: %s' % (t, n + 1, bad.split('|')[1])); break
            vp.state('ol', sorted((a, len(v)) for a, v in res.items()), i)
        vp.trace(); vp.progress()

# --- fs.py
class M(object): pass
CALLS = []
def train_test(dtrain, dtest, model_name=None, model_params={}, cv_params=None, fold_num=5, cv_process_num=1, **kw):
    CALLS.append((model_name, canon(model_params), canon(cv_params) if cv_params else None, fold_num, cv_process_num, canon(kw)))
    m = M(); n = len(CALLS); nz = int(h('nz', n) * (dtrain.dim + 1)); m.nz = nz; m.sparsity = float(np.float32(1) - np.float32(nz / float(dtrain.dim)))
    return h('ta', n), h('tt', n), h('ra', n), h('rt', n), m
def fs_algos(): return collections.OrderedDict([
    ('SOFS', {'params': {'norm': 'L2'}, 'cv': {'r': [1, 2]}, 'lambda': [3, 5]}), ('pet', {'lambda': [2]}), ('ogd', {'params': {'eta': 1}, 'lambda': [0.5, 0, 0.25, -1]}),
    ('FGM', {'lambda': [4, 6]}), ('liblinear', {'lambda': [0.5, 2]}), ('vw', {'lambda': [0.1], 'cv': {'learning_rate': [1]}}), ('mrmr', {'lambda': [2], 'params': {'binary_thresh': 0.5}}), ('gpu-mrmr', {'lambda': [2]})])
FSETS = [('SOFS',), ('ogd', 'pet'), ('FGM', 'SOFS', 'vw'), ('liblinear', 'mrmr', 'gpu-mrmr', 'ogd')]
FEXPS = [(s, r, t, k) for s in range(len(FSETS)) for r in (1, 2) for t in (None, 'all', 'one') for k in ('fs', 'sol')]
def features():
    # results kept under a name in its original spelling
    for spelled, q in itertools.product(('SOFS', 'sofs'), (None, 'all', 'one')):
        if not vp.take(): continue
        t = 'results kept as %s, retrain=%s' % (spelled, q); vp.describe(t); vp.trace(); vp.state(t); vp.step()
        w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); old = [np.array([[k + 0.5, k + 0.25]]) for k in range(3)]; pickle.dump({spelled: old}, open(os.path.join(w, 'c.pkl'), 'wb'))
        st = module('sol.sol_train', train_test=train_test); m = load('ofs/fs.py', 'vp_fs', dict(SOLPKG, **{'sol': module('sol', sol_train=st), 'sol.sol_train': st, 'liblinear': module('liblinear'), 'fgm': module('fgm'), 'mrmr': module('mrmr')})); del PLOTS[:], CALLS[:]
        try: captured(lambda: m.exp_fs(Data('a', w, dim=7), Data('b', w), {'SOFS': fs_algos()['SOFS']}, os.path.join(w, 'c.pkl'), retrains=None if q is None else ['all'] if q == 'all' else ['SOFS'], draw_opts={'accu': {}, 'time': {}}))
        except (Exception, SystemExit) as x: vp.fail('C27:raised', '%s raised %r' % (t, x)); continue
        got = pickle.load(open(os.path.join(w, 'c.pkl'), 'rb'))
        if list(got) != ['sofs'] or (len(CALLS) == 0) != (q is None) or (q is None and not np.allclose(got['sofs'], old)) or len(PLOTS) != 2 or not np.allclose(PLOTS[0][1][0], got['sofs'][1][0]): vp.fail('C27:fs-spelling', '%s: %d trainings, %s' % (t, len(CALLS), got))
    key = {'liblinear': 'C', 'fgm': 'B', 'vw': 'l1', 'mrmr': 'B', 'gpu-mrmr': 'B'}
    for seq in vp.sequences(len(FEXPS), 1, 2):
        if not vp.take(): continue
        if len(seq) == 2 and not vp.C.thorough and FEXPS[seq[0]][3] != FEXPS[seq[1]][3]: continue
        t = ' then '.join('%s x%d retrain=%s task=%s' % (','.join(FSETS[s]), r, q, k) for s, r, q, k in (FEXPS[i] for i in seq)); vp.describe(t); vp.sample(t)
        w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); res = {}; Data.shuffles = 0
        for n, i in enumerate(seq):
            names, repeat, q, task = FSETS[FEXPS[i][0]], FEXPS[i][1], FEXPS[i][2], FEXPS[i][3]
            st = module('sol.sol_train', train_test=train_test)
            m = load('ofs/fs.py', 'vp_fs', dict(SOLPKG, **{'sol': module('sol', sol_train=st), 'sol.sol_train': st, 'liblinear': module('liblinear', train_test_l1=other('liblinear', 5)), 'fgm': module('fgm', train_test=other('fgm', 5)), 'mrmr': module('mrmr', train_test=other('mrmr', 5))}))
            m.vw = module('vw', train_test=other('vw', 5)); m.fs_task = task
            opts = collections.OrderedDict((a, fs_algos()[a]) for a in names); given = copy.deepcopy(opts); del PLOTS[:], OTHER[:], CALLS[:]
            retr = None if q is None else ['all'] if q == 'all' else [names[-1]]; d, e = Data('dt_train', w, dim=7), Data('dt_test', w); vp.step()
            try: captured(lambda: m.exp_fs(d, e, opts, os.path.join(w, 'c.pkl'), repeat=repeat, retrains=retr, fold_num=3, cv_process_num=2, draw_opts={'accu': {'logx': True}, 'time': {}}))
            except (Exception, SystemExit) as x: vp.fail('C27:raised', '%s :: experiment %d raised %s %r' % (t, n + 1, type(x).__name__, x)); break
            bad = None; c, o = 0, 0
            todo = [a for a in names if a.lower() not in res or q == 'all' or (q == 'one' and a == names[-1])]
            for a in todo:      # in the order of the options
                al = a.lower(); L = given[a]['lambda']; rows = [[], [], []]
                for rid in range(repeat):
                    if rid and al in ('liblinear', 'fgm'):
                        for r in rows: r.append(r[-1])
                        continue
                    row = []
                    for val in L:
                        p = dict(given[a].get('params', {}))
                        if al in key:
                            p[key[al]] = val
                            if o >= len(OTHER): bad = bad or 'runs|%s was not run with %s' % (a, p); row.append((0, 0, 0)); continue
                            x = OTHER[o]; nm = 'mrmr' if 'mrmr' in al else al; o += 1
                            kw = p if al != 'vw' else dict(model_params=p, cv_params=given[a]['cv'], fold_num=3, cv_process_num=2); pos = ((al == 'gpu-mrmr',) if 'mrmr' in al else ())
                            if not bad and x != (nm, 'dt_train', 'dt_test', pos, canon(kw)): bad = 'arguments|%s was run with %s instead of %s' % (a, x, kw)
                            row.append((int(h(x[0], 0, o) * 10), h(x[0], 1, o), h(x[0], 4, o)))
                        else:
                            if val > 0: p['lambda' if task == 'sol' else 'B'] = val
                            want = (al, canon(p), canon(given[a]['cv']) if 'cv' in given[a] else None, 3, 2, ())
                            if c >= len(CALLS): bad = bad or 'runs|%s was not run with %s' % (a, p); row.append((0, 0, 0)); continue
                            if not bad and CALLS[c] != want: bad = 'arguments|%s was trained with %s instead of %s' % (a, CALLS[c], want)
                            c += 1; row.append((int(h('nz', c) * 8), h('ta', c), h('rt', c)))
                    for z in range(3): rows[z].append([r[z] for r in row])
                res[al] = [np.array(r, float) for r in rows]
            if not bad and (c, o) != (len(CALLS), len(OTHER)): bad = 'runs|%d trainings instead of %d' % (len(CALLS) + len(OTHER), c + o)
            saved = pickle.load(open(os.path.join(w, 'c.pkl'), 'rb'))
            if not bad and sorted(saved) != sorted(res): bad = 'results|results saved for %s instead of %s' % (sorted(saved), sorted(res))
            for a in res:
                for z, what in enumerate(('number of features', 'test accuracy', 'training time')):
                    if not bad and (np.shape(saved[a][z]) != res[a][z].shape or not np.allclose(saved[a][z], res[a][z])): bad = 'results|%s of %s saved as %s instead of %s' % (what, a, saved[a][z].tolist(), res[a][z].tolist())
            for z, label, ex, kw in ((1, 'Accuracy', 'gpu-mrmr', {'logx': True}), (2, 'Time', '', {})):
                f = [p for p in PLOTS if label in p[3]]; lines = [a for a in names if a != ex]
                if bad: break
                if len(f) != 1 or f[0][4] != lines or f[0][6] != kw or ('-%s-' % task) not in f[0][5]: bad = 'figures|figures %s for %s' % ([(p[3], p[4], p[5]) for p in PLOTS], lines); break
                for y, a in enumerate(lines):
                    if not np.allclose(f[0][0][y], res[a.lower()][0].mean(axis=0)) or not np.allclose(f[0][1][y], res[a.lower()][z].mean(axis=0)): bad = 'figures|%s of %s drawn as %s, %s' % (label, a, f[0][0][y], f[0][1][y])
            if bad: vp.fail('C27:fs-' + bad.split('|')[0], '%s :: experiment %d: %s' % (t, n + 1, bad.split('|')[1])); break
            vp.state('fs', sorted((a, v[0].shape) for a, v in res.items()), i)
        vp.trace(); vp.progress()

def counts():
    """the number of features reported is the number of non-zero weights, for every sparsity"""
    for dim in range(1, 65 if vp.C.thorough else 41):
        if not vp.take(): continue
        vp.describe('%d dimensions' % dim); vp.state('dim', dim)
        for nz in range(dim + 1):
            def tt(dtrain, dtest, **kw): m = M(); m.sparsity = float(np.float32(1) - np.float32(nz / float(dim))); return 0, 0, 0, 0, m
            st = module('sol.sol_train', train_test=tt)
            m = load('ofs/fs.py', 'vp_fs', dict(SOLPKG, **{'sol': module('sol', sol_train=st), 'sol.sol_train': st, 'liblinear': module('liblinear'), 'fgm': module('fgm'), 'mrmr': module('mrmr')}))
            d = Data('a', '.', dim=dim); vp.step(); vp.trace()
            r = m.run_fs(d, d, 'ogd', {'lambda': [1]}, 3, 1)
            if list(r[0]) != [nz]: vp.fail('C27:fs-features', '%d of %d weights are not zero, reported are %s features' % (nz, dim, list(r[0]))); break
        vp.progress()

# --- the other learners
class CSR(object):
    def __init__(self, a): self.a = np.array(a, float)
    @property
    def shape(self): return self.a.shape
    def toarray(self): return self.a.copy()
    def __getitem__(self, k): return CSR(self.a[k])
class SVC(object):
    made = []
    def __init__(self, **kw): self.kw = kw; SVC.made.append(kw)
    def fit(self, x, y): Clock.now += 3.0; self.d = x.shape[1]; self.n = x.shape[0]; self.w = np.array([h('w', j, self.kw.get('C')) - 0.5 for j in range(self.d)]); self.w[abs(self.w) < 0.15] = 0; self.coef_ = self.w.reshape(1, -1)
    def score(self, x, y):
        Clock.now += 0.5
        if x.shape[1] != self.d: raise ValueError('X has %d features, but LinearSVC is expecting %d features' % (x.shape[1], self.d))
        return float(np.mean(np.where(x.a.dot(self.w) >= 0, 1, -1) == y))
class Grid(object):
    made = []
    def __init__(self, estimator=None, param_grid=None, n_jobs=1, cv=None, verbose=False): self.g, self.cv, self.e = param_grid, cv, estimator
    def fit(self, x, y):
        Grid.made.append((sorted(self.g), cvlist(self.g), self.cv, x.shape)); k = sorted(self.g)[0]; b = sorted(self.g[k], key=lambda v: h('grid', v))[0]
        self.best_estimator_ = types.SimpleNamespace(C=b); self.best_params_ = {k: b}
def cvlist(g): return [float(v) for k in sorted(g) for v in g[k]]
def svmload(path):
    ys, xs, d = [], [], 0
    for l in open(path):
        p = l.split()
        if not p: continue
        ys.append(float(p[0])); xs.append({int(z.split(':')[0]): float(z.split(':')[1]) for z in p[1:]}); d = max([d] + list(xs[-1]))
    return CSR([[x.get(j + 1, 0) for j in range(d)] for x in xs]), np.array(ys)
SK = {'sklearn': module('sklearn', svm=module('svm', LinearSVC=SVC), datasets=module('datasets', load_svmlight_file=svmload)), 'sklearn.model_selection': module('ms', GridSearchCV=Grid), 'scipy': module('scipy'), 'scipy.sparse': module('scipy.sparse', csr_matrix=lambda a: CSR(a)), 'vowpalwabbit': module('vowpalwabbit'), 'vowpalwabbit.sklearn_vw': module('vw', VWClassifier=lambda: None)}
class FData(Data):
    """data set in a real file"""
    def __init__(self, name, work, recs, cls=2):
        Data.__init__(self, name, work, cls=cls); self.data_path = os.path.join(work, name + '.svm'); self.recs = recs; self.data_num = len(recs); self.dim = max(max(x) for _, x in recs if x)
        open(self.data_path, 'w').write(''.join('%s%s\n' % (l, ''.join(' %d:%g' % (j, v) for j, v in sorted(x.items()))) for l, x in recs))
    def rand_path(self, tgt_type=None, force=False): return self.data_path
    def convert(self, t): return self.data_path
    def binarize(self, t, thr): self.thr = (t, thr); p = os.path.join(self.work_dir, 'b.csv'); open(p, 'w').write('x'); return p
def datasets(dim, labels):
    base = [{1: 1.0}, {dim: -2.0}, {1: -0.5, dim: 1.5}, {max(1, dim - 1): 2.0}, {(dim + 1) // 2: -1.0, dim: 0.25}]
    return [(labels[i % len(labels)], x) for i, x in enumerate(base)]
def liblinears():
    for folder in ('experiments', 'ofs'):
        for dt, de, C, l1 in itertools.product(range(1, 7), range(1, 7), (0.5, 2.0, [0.25, 1.0, 4.0], np.array([0.5, 8.0]), [0.03125], [128.0], np.logspace(-5, 7, 13, base=2)), (0, 1)):
            if not vp.take(): continue
            if l1 and not isinstance(C, float): continue
            w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            m = load(folder + '/liblinear.py', 'vp_liblinear', dict(SOLPKG, **SK)); tr, te = FData('tr', w, datasets(dt, [1, -1])), FData('te', w, datasets(de, [-1, 1, 1])); del SVC.made[:], Grid.made[:]
            t = '%s/liblinear.py l%d C=%s, %d training and %d test dimensions' % (folder, 2 - l1, C, dt, de); vp.describe(t); vp.sample(t); vp.step(2); vp.trace(); vp.state(t)
            c = C if isinstance(C, float) else sorted(C, key=lambda v: h('grid', v))[0]
            def expect():
                x, y = svmload(tr.data_path); z, v = svmload(te.data_path); s = SVC(C=c); s.fit(x, y); SVC.made.pop()
                a = np.zeros((len(v), dt)); k = min(dt, z.shape[1]); a[:, :k] = z.a[:, :k]
                return s.score(CSR(a), v), s.score(x, y), int(np.count_nonzero(s.w))
            for again in (0, 1):
                Clock.now = 0.0
                try: r = m.train_test_l1(tr, te, C=C) if l1 else m.train_test_l2(tr, te, C=C, fold_num=3)
                except (Exception, SystemExit) as x: vp.fail('C27:liblinear-raised', '%s raised %r' % (t, x)); break
                ta, ra, nz = expect(); off = 1 if l1 else 0
                if abs(r[off] - ta) > 1e-9 or abs(r[off + 2] - ra) > 1e-9 or (l1 and abs(r[0] - nz) > 1e-9): vp.fail('C27:liblinear', '%s gives %s instead of test %g train %g features %d' % (t, r, ta, ra, nz)); break
                if not (3 <= r[off + 3] <= 4 and 0.5 <= r[off + 1] <= 1): vp.fail('C27:liblinear-times', '%s reports %s; training takes 3 s, each test 0.5 s' % (t, r)); break
                used = [k for k in SVC.made if 'C' in k]
                if not used or used[-1]['C'] != c or used[-1]['penalty'] != ('l1' if l1 else 'l2'): vp.fail('C27:liblinear-arguments', '%s trains with %s' % (t, used)); break
            if not isinstance(C, float) and Grid.made != [(['C'], [float(v) for v in C], 3, (5, dt))]: vp.fail('C27:liblinear-grid', '%s searches %s' % (t, Grid.made))

def system(log, classes, w):
    """the programs the scripts call: vw, FGM, Predict, fast-mrmr, mrmr-reader"""
    def vwpred(x, k): return h('vw', x.strip(), k)
    def run(cmd):
        out = None; a = shlex.split(cmd)
        if '>' in a: out = a[a.index('>') + 1]; a = a[:a.index('>')]
        log.append(a); prog, o, rest, i = a[0], {}, [], 1
        while i < len(a):
            if a[i].startswith('-'):
                if a[i] == '-t' and prog == 'vw': o[a[i]] = True; i += 1
                else: o[a[i]] = a[i + 1]; i += 2
            else: rest.append(a[i]); i += 1
        if prog == 'vw':
            lines = [l for l in open(rest[0]).read().split('\n') if l]
            if '-t' in o:
                if not os.path.exists(o['-i']): return 1
                open(o['-p'], 'w').write(''.join(('%g\n' % (vwpred(l.split('|', 1)[1], 0) - 0.5) if classes == 2 else '%d\n' % (1 + int(vwpred(l.split('|', 1)[1], 0) * classes))) for l in lines))
            else:
                open(o['-f'], 'w').write('model')
                if '--readable_model' in o: open(o['--readable_model'], 'w').write('header\n' * 11 + 'f:1\n' * int(h('nz', len(lines)) * 20))
        Clock.now += 0.5 if prog == 'Predict' or (prog == 'vw' and '-t' in o) else 3.0 if prog in ('vw', 'FGM') else 0
        if prog == 'vw': pass
        elif prog == 'FGM': open(rest[1], 'w').write('fgm model')
        elif prog == 'Predict': open(out, 'w').write('Accuracy = 10%% (a)\nAccuracy = 20.5%% (b)\nAccuracy = %g%% (c)\n' % acc_of(rest[0]))
        elif prog == 'mrmr-reader': open(rest[1], 'w').write('mrmr')
        elif 'mrmr' in prog: open(out, 'w').write('3,1,2\n'); Clock.now += 2.5
        else: return 127
        return 0
    run.pred = vwpred
    return run
def acc_of(path): return int(h('acc', os.path.basename(path)) * 1000) / 10.0
def learners():
    # vw
    cases = []
    for cls, labels in ((2, ['1', '-1']), (2, ['+1', '-1']), (2, ['1', '0']), (3, ['0', '1', '2'])):
        for sep, empty in itertools.product((' ', '\t'), (0, 1)):
            for cvp, l1, retrain, again in itertools.product((None, {'learning_rate': [0.5, 2.0]}, {'learning_rate': [0.0625]}), (None, 0.25), (False, True), (0, 1)): cases.append((cls, labels, sep, empty, cvp, l1, retrain, again))
    for cls, labels, sep, empty, cvp, l1, retrain, again in cases:
        if not vp.take(): continue
        w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); log = []; del Grid.made[:]
        recs = datasets(4, labels); tst = datasets(3, labels)[1:]
        if empty: recs.insert(2, (labels[0], {})); tst.insert(1, (labels[-1], {}))
        tr, te = FData('tr', w, recs, cls), FData('te', w, tst, cls)
        if sep == '\t':
            for d in (tr, te): s = open(d.data_path).read().replace(' ', '\t', 0).split('\n'); open(d.data_path, 'w').write('\n'.join(l.replace(' ', '\t', 1) for l in s))
        m = load('experiments/vw.py', 'vp_vw', dict(SOLPKG, **SK)); run = system(log, cls, w); PROGRAMS[0] = run
        t = 'vw.py %d classes labelled %s cv=%s l1=%s retrain=%s%s%s' % (cls, labels, cvp, l1, retrain, ', records without features' if empty else '', ', run twice' if again else ''); vp.describe(t); vp.sample(t); vp.trace(); vp.state(t)
        def acc(d):
            ok = 0
            for l in [l for l in open(d.data_path).read().split('\n') if l]:
                p = l.split(None, 1) + ['']; f = run.pred(p[1], 0); y = int(p[0])
                ok += ((f > 0.5) == (y > 0)) if cls == 2 else (int(f * cls) == y)
            return ok / float(len(d.recs))
        for z in range(1 + again):
            given = {'b': 3}
            if l1: given['l1'] = l1
            keep = dict(given); vp.step()
            try: r = m.train_test(tr, te, given, cv_params=cvp, retrain=retrain, fold_num=3) if cls != 3 else m.train_test(tr, te, given, cvp, retrain)
            except (Exception, SystemExit) as x: vp.fail('C27:vw-raised', '%s raised %r' % (t, x)); break
            want = [acc(te), acc(tr)]; got = [r[0], r[2]] if not l1 else [r[1], r[3]]
            if not np.allclose(got, want): vp.fail('C27:vw', '%s gives accuracies %s instead of %s' % (t, got, want)); break
            if not (3 <= r[-1] <= 4 and 0.5 <= r[-3] <= 1): vp.fail('C27:vw-times', '%s reports %s; training takes 3 s, each test 0.5 s' % (t, r)); break
            if l1 and abs(r[0] - int(h('nz', len(recs)) * 20) / float(1 if cls == 2 else cls)) > 1e-9: vp.fail('C27:vw-features', '%s gives %g features' % (t, r[0])); break
            trains = [a for a in log if a[0] == 'vw' and '-t' not in a][-1]; p = dict(keep)
            if cvp: p['learning_rate'] = sorted(cvp['learning_rate'], key=lambda v: h('grid', v))[0]
            opt = {trains[i]: trains[i + 1] for i in range(1, len(trains) - 1) if trains[i].startswith('--')}
            if any(k != '--learning_rate' and opt.get('--' + k) != str(v) for k, v in p.items()) or ('--learning_rate' in opt) != bool(cvp) or (cvp and abs(float(opt['--learning_rate']) - p['learning_rate']) > 1e-6) or (opt.get('--oaa') != (None if cls == 2 else str(cls))): vp.fail('C27:vw-arguments', '%s calls %s' % (t, trains)); break
            if cvp and (Grid.made[-1][0], Grid.made[-1][1], Grid.made[-1][2]) != (['learning_rate'], cvp['learning_rate'], 3 if cls != 3 else 5): vp.fail('C27:vw-grid', '%s searches %s' % (t, Grid.made[-1])); break
            if cvp and len(Grid.made) != (z + 1 if retrain else 1): vp.fail('C27:vw-grid', '%s: %d cross validations after %d runs' % (t, len(Grid.made), z + 1)); break
    # FGM
    for B, s, c, cls in itertools.product((1, 5, 60), (None, 1), (None, 3), (2, 3)):
        if not vp.take(): continue
        w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); log = []; tr, te = FData('tr', w, datasets(4, [1, -1]), cls), FData('te', w, datasets(3, [1, -1]), cls)
        m = load('ofs/fgm.py', 'vp_fgm', SOLPKG); PROGRAMS[0] = system(log, cls, w); kw = {k: v for k, v in (('s', s), ('c', c)) if v is not None}
        t = 'fgm.py B=%d %s %d classes' % (B, kw, cls); vp.describe(t); vp.sample(t); vp.step(); vp.trace(); vp.state(t)
        try: r = m.train_test(tr, te, B, **kw); raised = None
        except (Exception, SystemExit) as x: raised = x
        if (raised is not None) != (cls != 2): vp.fail('C27:fgm-raised', '%s: %r' % (t, raised)); continue
        if cls != 2: continue
        if not np.allclose([r[0], r[1], r[3]], [B, acc_of('te.svm') / 100, acc_of('tr.svm') / 100]): vp.fail('C27:fgm', '%s gives %s' % (t, r)); continue
        if not (3 <= r[4] <= 4 and 0.5 <= r[2] <= 1): vp.fail('C27:fgm-times', '%s reports %s; training takes 3 s, each test 0.5 s' % (t, r)); continue
        f = [a for a in log if a[0] == 'FGM']; o = dict(zip(f[0][1:9:2], f[0][2:9:2])) if f else {}
        if len(f) != 1 or o.get('-B') != str(B) or o.get('-s') != str(s or 12) or o.get('-c') != str(c or 10) or f[0][-2] != tr.data_path: vp.fail('C27:fgm-arguments', '%s calls %s' % (t, log))
    # mRMR: the features chosen are kept and used as a filter
    for seq in itertools.product(itertools.product((2, 3), (False, True)), repeat=2):
        for thr in (None, 0.5):
            if not vp.take(): continue
            w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); log = []; tr, te = FData('tr', w, datasets(4, [1, -1])), FData('te', w, datasets(3, [1, -1]))
            tr.convert = lambda k: (open(os.path.join(w, 'c.csv'), 'w').write('x'), os.path.join(w, 'c.csv'))[1]
            st = module('sol.sol_train', train_test=train_test); m = load('ofs/mrmr.py', 'vp_mrmr', dict(SOLPKG, **{'sol': module('sol', sol_train=st), 'sol.sol_train': st})); PROGRAMS[0] = system(log, 2, w); real = m.convert_model_file
            t = 'mrmr.py (B, gpu) %s threshold %s' % (seq, thr); vp.describe(t); vp.sample(t); vp.trace(); vp.state(t); seen = set(); del CALLS[:]; py2bin(m)
            for n, (B, gpu) in enumerate(seq):
                p = {'norm': 'L2'}; vp.step()
                try: r = m.train_test(tr, te, gpu, B, binary_thresh=thr, ol_algo='ogd', ol_model_params=p, ol_cv_params={'eta': [1]})
                except (Exception, SystemExit) as x: vp.fail('C27:mrmr-raised', '%s raised %r' % (t, x)); break
                run = [a for a in log if 'mrmr' in a[0] and a[0] != 'mrmr-reader']; seen.add((B, gpu))
                if len(run) != len(seen): vp.fail('C27:mrmr-runs', '%s: %d selections for %s' % (t, len(run), sorted(seen))); break
                if (B, gpu) == seq[n] and len(run) and n == len(run) - 1 and (run[-1][0] != ('gpu-mrmr' if gpu else 'fast-mrmr') or run[-1][run[-1].index('-a') + 1] != str(B)): vp.fail('C27:mrmr-arguments', '%s calls %s' % (t, run[-1])); break
                x = CALLS[n]; q = dict(eval('{%s}' % ','.join('%r:%s' % k for k in x[1])))
                if x[0] != 'ogd' or q.get('norm') != 'L2' or x[2] != canon({'eta': [1]}) or [int(l) for l in open(q.get('filter', os.devnull)).read().split('\n') if l and l[0] != '#'] != [3, 1, 2]: vp.fail('C27:mrmr-model', '%s trains %s' % (t, x)); break
                if r[0] != B or not np.allclose(r[1:4], [h('ta', n + 1), h('tt', n + 1), h('ra', n + 1)]) or abs(r[4] - h('rt', n + 1) - 2.5) > 1e-4: vp.fail('C27:mrmr', '%s: run %d gives %s' % (t, n + 1, r)); break
            if thr is not None and getattr(tr, 'thr', None) != ('csv', thr): vp.fail('C27:mrmr-threshold', '%s: binarised with %s' % (t, getattr(tr, 'thr', None)))

def failing():
    """a called program that fails ends the experiment, whatever it had written"""
    for script, total in (('vw', 3), ('fgm', 3), ('mrmr', 2), ('gpu-mrmr', 2)):
        for at in range(total):
            if not vp.take(): continue
            w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); log = []; tr, te = FData('tr', w, datasets(4, [1, -1])), FData('te', w, datasets(3, [1, -1])); run = system(log, 2, w); n = [0]
            def prog(cmd):
                r = run(cmd); n[0] += 1
                return 256 if n[0] == at + 1 else r
            t = '%s: program call %d fails' % (script, at + 1); vp.describe(t); vp.sample(t); vp.step(); vp.trace(); vp.state(t); st = module('sol.sol_train', train_test=train_test); ended = False
            tr.convert = te.convert = lambda k: tr.data_path if k == 'svm' else tr.binarize(k, 0)
            m = load({'vw': 'experiments/vw.py', 'fgm': 'ofs/fgm.py'}.get(script, 'ofs/mrmr.py'), 'vp_prog', dict(SOLPKG, **dict(SK, **{'sol': module('sol', sol_train=st), 'sol.sol_train': st}))); py2bin(m); PROGRAMS[0] = prog
            try: m.train_test(tr, te) if script == 'vw' else m.train_test(tr, te, 3) if script == 'fgm' else m.train_test(tr, te, script == 'gpu-mrmr', 3)
            except (Exception, SystemExit): ended = True
            if not ended or n[0] != at + 1: vp.fail('C27:failed-program', '%s, but %s' % (t, 'results are returned' if not ended else '%d programs were called' % n[0]))

# --- the programs themselves
class Args(object): made = []
def programs():
    def dataset(name, path='', dtype='svm', passes=1):
        d = Data(name, w, dtype); d.data_path = path; d.pass_num = passes; Args.made.append((name, path, dtype, passes)); return d
    for prog, kind in (('experiments/experiment.py', 'ol'), ('ofs/fs.py', 'fs'), ('ofs/fs.py', 'both')):
        for opt, passes, draw in itertools.product(([], ['--repeat', '2'], ['-f', '3'], ['--fold_num', '4', '-p', '2'], ['-o', 'other.pkl'], ['--retrain', 'all'], ['--retrain', 'arow'], ['--process_num', '3', '--repeat', '3', '--output', 'x.pkl']), (None, 4), (0, 1)):
            for dtype in (None, 'csv'):
                if not vp.take(): continue
                w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); base = os.getcwd(); os.chdir(w)
                a = ['dt', 'a.train', 'a.test'] + ([dtype] if dtype else []) + opt; t = prog + ' ' + ' '.join(a) + ' passes=%s' % passes + (' both tasks' if kind == 'both' else ''); vp.describe(t); vp.sample(t); vp.step(2); vp.trace(); vp.state(t)
                o = module('dt', **({'ol_opts': {'ogd': {'cv': {'eta': [1, 2]}}, 'arow': {}}} if kind == 'ol' else {'fs_opts': {'sofs': {'cv': {'r': [1]}, 'lambda': [1, 2]}, 'arow': {'lambda': [3]}}}))
                if kind == 'both': o.sol_opts = {'stg': {'lambda': [0.5, 0.25]}, 'rda': {'lambda': [0.5]}}
                if passes: o.passes = passes
                if draw: o.draw_opts = {'train-error': {'logx': True}, 'update-num': {'logy': True}, 'accu': {'logx': True}, 'time': {'logy': True}}
                st = module('sol.sol_train', train_test=train_test); g = logging.getLogger(''); main = sys.modules['__main__']; old = sys.argv; sys.argv = ['x'] + a; path = list(sys.path)
                repeat = int(([x for i, x in enumerate(opt) if i and opt[i - 1] == '--repeat'] or ['1'])[0]); fold = int(([x for i, x in enumerate(opt) if i and opt[i - 1] in ('-f', '--fold_num')] or ['5'])[0]); proc = int(([x for i, x in enumerate(opt) if i and opt[i - 1] in ('-p', '--process_num')] or ['1'])[0]); out = ([x for i, x in enumerate(opt) if i and opt[i - 1] in ('-o', '--output')] or [os.path.join(w, 'dt-%s-cache.pkl' % ('ol' if kind == 'ol' else 'fs'))])[0]
                try:
                    for n in range(2):
                        del Args.made[:], PLOTS[:], CALLS[:], SOL.made[:], CV.done[:], OTHER[:]
                        try: captured(lambda: load(prog, '__main__', dict(SOLPKG, **{'dt': o, 'sol': module('sol', sol_train=st), 'sol.sol_train': st, 'sol.dataset': module('sol.dataset', DataSet=dataset), 'liblinear': module('liblinear'), 'fgm': module('fgm'), 'mrmr': module('mrmr')})))
                        except (Exception, SystemExit) as x: vp.fail('C27:program-raised', '%s: run %d raised %r' % (t, n + 1, x)); break
                        if Args.made != [('dt', 'a.train', dtype or 'svm', passes or 1), ('dt', 'a.test', dtype or 'svm', 1)]: vp.fail('C27:program-data', '%s opens %s' % (t, Args.made)); break
                        again = [z for z in ('all', 'arow') if z in opt]; runs = (2 if kind == 'ol' else 3 if kind == 'fs' else 6) * repeat
                        if n: runs = 0 if not again else runs if again == ['all'] else repeat
                        got = len(SOL.made) + len(CALLS)
                        if kind == 'both' and again == ['arow'] and n: pass
                        elif got != runs: vp.fail('C27:program-runs', '%s: run %d trains %d models instead of %d' % (t, n + 1, got, runs)); break
                        if CV.done and (len(CV.done) != 1 or CV.done[0][2] != fold) or any((c[3], c[4]) != (fold, proc) for c in CALLS): vp.fail('C27:program-folds', '%s validates with %s' % (t, CV.done or CALLS[0])); break
                        if not os.path.exists(out): vp.fail('C27:program-output', '%s does not write %s' % (t, out)); break
                        want = ({'logx': True}, {'logy': True}) if draw else ({}, {}); lines = [p[6] for p in PLOTS]
                        if lines != list(want) * (2 if kind == 'both' else 1): vp.fail('C27:program-figures', '%s draws with %s' % (t, lines)); break
                        saved = pickle.load(open(out, 'rb')); names = sorted(saved['res'] if kind == 'ol' else saved)
                        if names != sorted({'ol': ['ogd', 'arow'], 'fs': ['sofs', 'arow'], 'both': ['sofs', 'arow', 'stg', 'rda']}[kind]): vp.fail('C27:program-results', '%s keeps results of %s' % (t, names)); break
                        if kind == 'both' and n == 0 and [('lambda' in dict(c[1]), 'B' in dict(c[1])) for c in CALLS] != [(False, True)] * 3 * repeat + [(True, False)] * 3 * repeat: vp.fail('C27:program-limits', '%s trains with %s' % (t, [c[1] for c in CALLS])); break
                finally:
                    sys.argv = old; sys.modules['__main__'] = main; sys.path[:] = path; os.chdir(base)
                    for k in list(g.handlers): g.removeHandler(k); k.close()
                    for k in ('dt', 'sol'): sys.modules.pop(k, None)
        vp.progress()

# --- drawing
class Plt(object):
    def __init__(self): self.lines = []; self.calls = []
    def rc(self, *a, **k): pass
    def figure(self): self.lines, self.calls = [], []; return self
    def add_subplot(self, *a): self.calls.append(('subplot', a)); return self
    def _line(kind):
        def f(self, x, y, **k): self.lines.append((kind, list(x), list(y), k.get('color'), k.get('marker'))); return ['line%d' % len(self.lines)]
        return f
    plot, semilogx, semilogy, loglog = _line('plot'), _line('semilogx'), _line('semilogy'), _line('loglog')
    def legend(self, *a, **k): self.calls.append(('legend', a, k)); return self
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        def f(*a, **k): self.calls.append((n, a, k)); return self
        return f
def drawings():
    xs = [[1, 2, 3, 4], [2, 4, 6, 8], [1, 3, 5]]; ys = [[0.5, 0.4, 0.3, 0.2], [1, 2, 3, 4], [9, 8, 7]]; names = ['a', 'b', 'c']
    for folder in ('experiments', 'ofs'):
        for n, lx, ly, xlim, ylim, leg in itertools.product((0, 1, 2, 3), (False, True), (False, True), (None, [2, 4], [3, 3], [100, 200]), (None, [0, 1]), (True, False)):
            if not vp.take(): continue
            t = '%s/fig.py %d curves log %s,%s limits %s,%s legend %s' % (folder, n, lx, ly, xlim, ylim, leg); vp.describe(t); vp.sample(t); vp.step(); vp.trace(); vp.state(t); P = Plt(); mp = module('matplotlib'); mp.pyplot = P
            m = load(folder + '/fig.py', 'vp_fig', {'matplotlib': mp, 'matplotlib.pyplot': P}); m.plt = P
            try: m.plot(xs[:n], ys[:n], 'X', 'Y', names[:n], 'out.pdf', xlim=xlim, ylim=ylim, logx=lx, logy=ly, draw_legend=leg)
            except (Exception, SystemExit) as x: vp.fail('C27:figure-raised', '%s raised %r' % (t, x)); continue
            kind = {(0, 0): 'plot', (1, 0): 'semilogx', (0, 1): 'semilogy', (1, 1): 'loglog'}[(int(lx), int(ly))]
            want = []
            for i in range(n):
                keep = [(a, b) for a, b in zip(xs[i], ys[i]) if xlim is None or xlim[0] <= a <= xlim[1]]; want.append((kind, [a for a, _ in keep], [b for _, b in keep]))
            if [l[:3] for l in P.lines] != want: vp.fail('C27:figure', '%s draws %s instead of %s' % (t, [l[:3] for l in P.lines], want)); continue
            if len(set(map(repr, [l[3:] for l in P.lines]))) != n: vp.fail('C27:figure-styles', '%s draws two curves alike' % t)
            c = {k[0]: k for k in P.calls}
            if c.get('savefig', (0, (None,)))[1][0] != 'out.pdf' or c.get('xlabel', (0, (None,)))[1][0] != 'X' or c.get('ylabel', (0, (None,)))[1][0] != 'Y': vp.fail('C27:figure-labels', '%s: %s' % (t, P.calls))
            elif ('legend' in c) != leg or (leg and (list(c['legend'][1][0]) != ['line%d' % (i + 1) for i in range(n)] or list(c['legend'][1][1]) != names[:n])): vp.fail('C27:figure-legend', '%s: %s' % (t, c.get('legend')))
            elif ('set_xlim' in c) != (xlim is not None) or ('set_ylim' in c) != (ylim is not None) or (xlim and list(c['set_xlim'][1][0]) != xlim) or (ylim and list(c['set_ylim'][1][0]) != ylim): vp.fail('C27:figure-limits', '%s: %s' % (t, P.calls))

# --- the shipped configurations, on the real library
def configurations():
    pysol = pysolref.pysol
    for folder in ('experiments/opts', 'ofs/opts'):
        for f in sorted(os.listdir(os.path.join(R, folder))):
            if not f.endswith('.py'): continue
            if not vp.take(): continue
            t = folder + '/' + f; vp.describe(t); vp.sample(t); vp.trace(); vp.state(t)
            try: m = py2.load(os.path.join(R, folder, f), 'vp_opts')
            except (Exception, SystemExit) as x: vp.fail('C27:options', '%s cannot be loaded: %r' % (t, x)); continue
            for kind in ('ol_opts', 'fs_opts', 'sol_opts'):
                for algo, o in getattr(m, kind, {}).items():
                    if algo.lower() in ('liblinear', 'vw', 'fgm', 'mrmr', 'gpu-mrmr'): continue
                    base = dict(o.get('params', {})); cvp = o.get('cv') or {}; lim = {'ol_opts': None, 'fs_opts': 'B', 'sol_opts': 'lambda'}[kind]
                    try:
                        grid = [dict(zip(cvp, v)) for v in itertools.product(*[cvp[k] for k in cvp])]
                        if lim: grid = [dict(g, **({lim: v} if v > 0 else {})) for g in grid for v in o['lambda']]
                        for g in grid:
                            p = dict(base); p.update(g); vp.step(); pysol.SOL(algo.lower(), 2, **p)
                    except (Exception, SystemExit) as x: vp.fail('C27:options', '%s: %s of %s: %r' % (t, algo, kind, x))
            vp.progress()

# --- whole experiments on the real library
RECS = [(1, {1: 1.0}), (-1, {2: -2.5}), (1, {1: 0.5, 4: 1.0}), (-1, {3: 3.0}), (1, {2: 1.0, 3: -1.0}), (-1, {1: -1.0, 4: 0.25}), (1, {4: 2.0})]
RECS3 = [(0, {1: 1.0}), (1, {2: 2.5}), (2, {3: 0.5, 4: 1.0}), (0, {1: 3.0, 2: -1.0}), (1, {2: 1.0, 3: -1.0}), (2, {3: 1.5, 4: 0.25}), (0, {4: 2.0}), (2, {1: -1.0})]
def whole():
    base = os.getcwd(); pysol, Ref = pysolref.pysol, pysolref.Ref; sys.modules['pysol'] = pysol
    P = os.path.join(R, 'python'); ds = py2.load(os.path.join(P, 'dataset.py'), 'dataset')
    for algo, o in (('ogd', {'params': {'step_show': 1, 'eta': 0.5}}), ('PA1', {'params': {'C': 0.5, 'step_show': 1}}), ('arow', {'params': {'step_show': 1, 'r': 2}}), ('perceptron', {'params': {'step_show': 1}}), ('fobos-l1', {'params': {'lambda': 0.1, 'step_show': 1}})):
        for cls, repeat, task in itertools.product((2, 3), (1, 2), ('ol', 'fs', 'sol')):
            if task != 'ol' and algo != 'fobos-l1' and algo != 'ogd': continue
            if not vp.take(): continue
            t = 'whole %s experiment, %s, %d classes, %d repetitions' % (task, algo, cls, repeat); vp.describe(t); vp.sample(t); vp.trace(); vp.state(t); vp.step()
            w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); os.chdir(w)
            try:
                recs = RECS if cls == 2 else RECS3
                for n, rs in (('tr.svm', recs * 3), ('te.svm', recs[1:5])):
                    open(n, 'w').write(''.join('%d%s\n' % (l, ''.join(' %d:%r' % k for k in sorted(x.items()))) for l, x in rs))
                a, b = ds.DataSet('d', 'tr.svm'), ds.DataSet('d', 'te.svm'); del PLOTS[:]
                st = module('sol.sol_train'); pk = dict(SOLPKG, **{'pysol': pysol, 'sol.dataset': ds, 'liblinear': module('liblinear'), 'fgm': module('fgm'), 'mrmr': module('mrmr')})
                if task == 'ol':
                    m = load('experiments/experiment.py', 'vp_experiment', pk)
                    captured(lambda: m.exp_ol(a, b, {algo: o}, 'c.pkl', repeat=repeat, draw_opts={'train-error': {}, 'update-num': {}}))
                    r = Ref(algo, cls)
                    for k, v in o['params'].items(): r.set(k, v)
                    rep = []; r.inspect(rep.append); fa = r.fit(a.rand_path(), 'svm'); sa = r.score('te.svm'); r.close()
                    got = pickle.load(open('c.pkl', 'rb')); row = got['res'][algo.lower()]
                    if row.shape != (repeat, 4) or abs(row[-1, 0] - sa) > 1e-6 or abs(row[-1, 2] - fa) > 1e-6: vp.fail('C27:whole', '%s reports %s; the model has test %g train %g' % (t, row.tolist(), sa, fa)); continue
                    L = got['train_log'][algo.lower()]
                    if len(L) != repeat or not np.allclose(L[-1], np.array(rep, float)): vp.fail('C27:whole-log', '%s keeps the log %s instead of %s' % (t, L[-1].tolist() if len(L) else L, rep))
                else:
                    cvm = py2.load(os.path.join(P, 'cv.py'), 'cv'); sys.modules.update({'sol': module('sol'), 'sol.dataset': ds, 'sol.cv': cvm})
                    st = py2.load(os.path.join(P, 'sol_train.py'), 'sol.sol_train'); pk.update({'sol': module('sol', sol_train=st), 'sol.sol_train': st})
                    m = load('ofs/fs.py', 'vp_fs', pk); m.fs_task = task; al = algo if task == 'sol' else 'fofs'; q = {} if al == 'fofs' else dict(o['params'])
                    if task == 'sol' and algo == 'ogd': continue
                    lim = [1, 3, 2, 0] if task == 'fs' else [0.01, 0.5, 0]
                    oo = {'params': q, 'lambda': lim}
                    captured(lambda: m.exp_fs(a, b, {al: oo}, 'c.pkl', repeat=repeat, draw_opts={'accu': {}, 'time': {}}))
                    got = pickle.load(open('c.pkl', 'rb'))[al]
                    for z, v in enumerate(lim):
                        r = Ref(al, cls); p = dict({} if al == 'fofs' else o['params'])
                        if v > 0: p['B' if task == 'fs' else 'lambda'] = v
                        for k, x in p.items(): r.set(k, x)
                        r.fit('tr.svm'); sa = r.score('te.svm'); nz = (1 - r.sparsity()) * 4; r.close()
                        if any(abs(got[1][i, z] - sa) > 1e-6 or abs(got[0][i, z] - nz) > 0.51 or (cls == 2 and got[0][i, z] != round(nz)) for i in range(repeat)): vp.fail('C27:whole-fs', '%s: limit %s reported as %s features, test accuracy %s; the model has %g and %g' % (t, v, got[0][:, z], got[1][:, z], nz, sa)); break
            except (Exception, SystemExit) as x: vp.fail('C27:whole-raised', '%s raised %r' % (t, x))
            finally: os.chdir(base)
            vp.progress()

def py2bin(m):
    """files opened 'wb' take text, as in Python 2"""
    m.open = lambda p, mode='r': open(p, mode.replace('b', ''))

def run():
    experiments(); features(); counts(); liblinears(); learners(); failing(); programs(); drawings(); configurations(); whole()
vp.main(run)
