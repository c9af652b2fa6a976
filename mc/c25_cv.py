# C25: cross validation and the Python training scripts.
import gc, os, sys, itertools, types, shutil, logging
import numpy as np
import vp, py2, pysched
import pysolref
from pysolref import Ref, pysol
pysched.install()
logging.disable(logging.CRITICAL)
P = os.path.join(os.environ['VP_REPO'], 'python')

# --- the scripts, with the real library and with a recording stand-in for it
dataset = py2.load(os.path.join(P, 'dataset.py'), 'dataset')
cv = py2.load(os.path.join(P, 'cv.py'), 'cv')
pkg = types.ModuleType('sol'); pkg.dataset, pkg.cv = dataset, cv
sys.modules.update({'sol': pkg, 'sol.dataset': dataset, 'sol.cv': cv})
train = py2.load(os.path.join(P, 'sol_train.py'), 'sol.sol_train')

CALLS = []
def value(*k):
    import hashlib
    return int(hashlib.sha1(repr(k).encode()).hexdigest()[:4], 16) / 65536.0
class FakeSOL(object):
    def __init__(self, algo=None, class_num=-1, **params): self.h = [algo, class_num, tuple(sorted((k, str(v)) for k, v in params.items()))]
    def fit(self, path, typ, passes=1): self.h.append(('fit', path, typ, passes)); return value('fit', *self.h)
    def score(self, path, typ): self.h.append(('score', path, typ)); CALLS.append(tuple(self.h)); return value('score', *self.h)
fake = types.ModuleType('pysol'); fake.SOL = FakeSOL
sys.modules['pysol'] = fake
fcv = py2.load(os.path.join(P, 'cv.py'), 'fcv')
sys.modules['pysol'] = pysol

class FakeData(object):
    def __init__(self, passes, cls): self.name, self.pass_num, self.class_num, self.slice_type, self.splits = 'd', passes, cls, 'svm', []
    def split_file(self, n, typ=None): self.splits.append((n, typ)); self.slice_type = typ or 'svm'
    def split_path(self, i): return 'part%d' % i

def grid(params):
    ks = list(params)
    return [dict(zip(ks, v)) for v in itertools.product(*[params[k] for k in ks])]
def canon(d): return tuple(sorted((k, str(v)) for k, v in d.items()))

def expected(algo, cls, params, extra, folds, passes):
    """scores of one parameter combination"""
    tr, va, calls = [], [], []
    for f in range(folds):
        p = dict(params); p.update(extra); m = FakeSOL(algo, cls, **p); t = None
        for _ in range(passes):
            for i in range(folds):
                if i != f: t = m.fit('part%d' % i, 'bin')
        tr.append(t); va.append(value('score', *(m.h + [('score', 'part%d' % f, 'bin')]))); calls.append(tuple(m.h + [('score', 'part%d' % f, 'bin')]))
    return tr, va, calls

def compare(c, algo, cls, params, extra, folds, passes):
    g = grid(params)
    if sorted(map(canon, [c.search_space.get_param(i) for i in range(len(g))])) != sorted(map(canon, g)): return 'grid|the grid searched is not the grid given'
    best, bestp = -1, None
    for k in range(len(g)):
        p = c.search_space.get_param(k); tr, va, _ = expected(algo, cls, p, extra, folds, passes)
        if not np.allclose(c.train_scores[k, :folds], tr) or not np.allclose(c.val_scores[k, :folds], va): return 'scores|scores of %s are %s / %s instead of %s / %s' % (p, c.train_scores[k].tolist(), c.val_scores[k].tolist(), tr, va)
        if not np.allclose(c.train_scores[k, folds], np.mean(tr)) or not np.allclose(c.val_scores[k, folds], np.mean(va)): return 'mean|mean scores of %s are %g / %g instead of %g / %g' % (p, c.train_scores[k, folds], c.val_scores[k, folds], np.mean(tr), np.mean(va))
        if np.mean(va) > best: best, bestp = np.mean(va), p
    got, idx = c.get_best_param()
    if canon(got) != canon(bestp) or canon(c.search_space.get_param(idx)) != canon(bestp): return 'best|best parameters %s, the highest mean validation accuracy has %s' % (got, bestp)
    return None

GRIDS = [{'a': [1]}, {'a': [1, 2]}, {'a': [1, 2, 4]}, {'a': [1, 2], 'b': [0.5, 0.25]}]
def schedules():
    T = vp.C.thorough
    for g in GRIDS:
        for procs in (1, 2, 3):
            for folds in (2, 3):
                for passes in (1, 2):
                    for reuse in (0, 1):
                        n = len(grid(g))
                        if not vp.take(): continue
                        d = 2 if n * folds * (1 + reuse) * passes * procs <= (16 if T else 4) else 1
                        t = '%d combinations, %d processes, %d folds, %d passes%s, <=%d delays' % (n, procs, folds, passes, ', used twice' if reuse else '', d)
                        vp.describe(t); vp.sample(t)
                        box = {}
                        def main():
                            del CALLS[:]
                            box.clear(); data = FakeData(passes, 2); box['cv'] = c = fcv.CV(data, folds, g, {'norm': 'L2'}, process_num=procs)
                            c.train_val('ogd')
                            if reuse: c.train_val('pa')
                            box['end'] = True
                        def check(s):
                            vp.trace(); vp.progress()
                            for a in s.actors:
                                if a.error is not None: return 'raised|%s raised %r' % (a.name, a.error)
                            if 'end' not in box: return 'never-ends|no process can go on (%s)' % s.end
                            left = [a.name for a in s.actors if not a.done and not getattr(a, 'feeder', False)]
                            if left: return 'left|%s still waiting after the end' % left
                            algos = ['ogd', 'pa'] if reuse else ['ogd']
                            want = sorted(x for al in algos for p in grid(g) for x in expected(al, 2, p, {'norm': 'L2'}, folds, passes)[2])
                            if sorted(CALLS) != want: return 'trained|the models trained and scored are not each combination once per fold: %s' % (CALLS[:3],)
                            vp.state(t, tuple(CALLS))
                            return compare(box['cv'], algos[-1], 2, g, {'norm': 'L2'}, folds, passes)
                        n, steps, r, sched = pysched.explore(main, check, d)
                        vp.step(steps); vp.extra('schedules', n)
                        if r: vp.fail('C25:' + r.split('|')[0], '%s :: %s [schedule %s]' % (t, r.split('|')[1], sched))

def inline(fn):
    """run fn as the main process, default schedule; returns its result"""
    box = {}
    def main(): box['r'] = fn()
    def check(s):
        box['errors'] = [a.error for a in s.actors if a.error is not None]
        if not box['errors'] and 'r' not in box: box['errors'] = [RuntimeError('never ended')]
        return None
    pysched.explore(main, check, 0)
    if box['errors']: raise box['errors'][0]
    return box['r']

# --- result files
def results():
    vals = [1, 0.5, 0.1, 1e-7, 3.0, 1 / 3.0, -2, 'true', 'L2', np.float64(0.3), 12345678901]
    for a in range(len(vals)):
        for b in range(len(vals)):
            if not vp.take(): continue
            g = {'x': [vals[a], vals[b]], 'y{}': [vals[b]]} if a != b else {'z': [vals[a]]}
            c = inline(lambda: _cv(g)); p = vp.tmp('cv.txt'); c.save_results(p); got = cv.CV.load_results(p); want = c.get_best_param()[0]
            vp.step(); vp.trace(); vp.state('results', a, b)
            if sorted(got.items()) != sorted(want.items()): vp.fail('C25:results', 'best parameters %r saved and loaded as %r' % (want, got))
def _cv(g):
    c = fcv.CV(FakeData(1, 2), 2, g, {}, process_num=1); c.train_val('ogd'); return c

# --- data set caches
RECS = [(1, {1: 1.0}), (-1, {2: -2.5}), (1, {1: 0.5, 4: 1.0}), (-1, {3: 3.0}), (1, {2: 1.0, 3: -1.0}), (-1, {1: -1.0, 4: 0.25}), (1, {4: 2.0})]
def write(path, recs):
    with open(path, 'w') as f:
        for l, x in recs: f.write('%d%s\n' % (l, ''.join(' %d:%r' % (k, v) for k, v in sorted(x.items()))))
def read(path, typ):
    if typ == 'csv':
        out = []
        for l in open(path).read().split('\n')[1:]:
            if l: q = l.split(','); out.append((int(q[0]), {i + 1: float(v) for i, v in enumerate(q[1:]) if float(v) != 0}))
        return out
    if typ == 'bin':
        q = vp.tmp('conv.svm'); assert pysol.convert_data(path, 'bin', q, 'svm') == 0; path = q
    return [(int(l.split()[0]), {int(z.split(':')[0]): float(z.split(':')[1]) for z in l.split()[1:]}) for l in open(path).read().split('\n') if l]
def key(r): return (r[0], tuple(sorted(r[1].items())))
def bag(rs): return sorted(map(key, rs))

OPS = [('split', 2, 'bin'), ('split', 3, 'bin'), ('split', 4, 'bin'), ('split', 2, 'svm'), ('split', 3, 'svm'), ('split', 2, None), ('split', 3, None),
       ('convert', 'bin'), ('convert', 'csv'), ('cache',), ('rand', None), ('rand', 'bin'), ('binarize', 'svm', 0.5), ('binarize', 'svm', 1.0)]
def caches():
    base = os.getcwd(); src = os.path.abspath(vp.tmp('data.txt')); write(src, RECS)
    for seq in vp.sequences(len(OPS), 1, 4 if vp.C.thorough else 3):
        if not vp.take(): continue
        t = ', '.join(str(OPS[o]) for o in seq); vp.describe(t)
        w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); os.chdir(w)
        try:
            ds = dataset.DataSet('d', data_path=src)
            if (ds.data_num, ds.dim, ds.class_num) != (7, 4, 2): vp.fail('C25:analysis', 'data set described as %s' % ((ds.data_num, ds.dim, ds.class_num),))
            for o in seq:
                k = OPS[o]; vp.step(); bad = None
                try:
                    if k[0] == 'split':
                        ds.split_file(k[1], k[2]); typ = k[2] or 'svm'; parts = [read(ds.split_path(i), typ) for i in range(k[1])]
                        if bag(sum(parts, [])) != bag(RECS): bad = 'folds|the %d folds do not partition the data: %s' % (k[1], parts)
                        else:
                            try: ds.split_path(k[1]); bad = 'folds|there is a fold too many'
                            except Exception: pass
                    elif k[0] == 'convert':
                        if list(map(key, read(ds.convert(k[1]), k[1]))) != list(map(key, RECS)): bad = 'convert|the conversion to %s holds other records' % k[1]
                    elif k[0] == 'cache':
                        if list(map(key, read(ds.cache_path(), 'bin'))) != list(map(key, RECS)): bad = 'cache|the binary copy holds other records'
                    elif k[0] == 'rand':
                        if bag(read(ds.rand_path(k[1]), k[1] or 'svm')) != bag(RECS): bad = 'shuffle|the shuffled data holds other records'
                    else:
                        if list(map(key, read(ds.binarize(k[1], k[2]), k[1]))) != [key((l, {i: 1.0 if v > k[2] else -1.0 for i, v in x.items()})) for l, x in RECS]: bad = 'binarize|binarised data is wrong'
                except SystemExit: bad = 'exit|%s ended the program' % (k,)
                except Exception as e: bad = 'raised|%s raised %r' % (k, e)
                if bad: vp.fail('C25:' + bad.split('|')[0], t + ' :: ' + bad.split('|')[1]); break
                vp.state(t[:60], sorted(os.listdir(ds.work_dir)))
            vp.trace()
        finally: os.chdir(base)

# --- training with the real library
def ref_cv(ds, algo, grid_, extra, folds):
    best, bp = -1, None
    for p in grid_:
        q = dict(p); q.update(extra); s = 0
        for f in range(folds):
            r = Ref(algo, ds.class_num)
            for k, v in q.items(): r.set(k, v)
            for _ in range(ds.pass_num):
                for i in range(folds):
                    if i != f: r.fit(ds.split_path(i), 'bin')
            s += r.score(ds.split_path(f), 'bin'); r.close()
        if s > best + 1e-9: best, bp = s, p
    return bp
TR = [('ogd', {}, None), ('ogd', {'eta': 0.5}, None), ('ogd', {}, {'eta': [0.01, 1, 16]}), ('arow', {'r': 2}, None), ('arow', {'norm': 'L2'}, {'r': [0.01, 1, 64]}),
      ('fofs', {'B': 1}, {'eta': [0.1, 1]}), ('pa', None, None), ('ogd', None, {'power_t': [0, 1]})]
def trainings():
    base = os.getcwd(); src = os.path.abspath(vp.tmp('train.txt')); write(src, RECS * 3 + RECS[:2])
    for seq in vp.sequences(len(TR), 1, 3 if vp.C.thorough else 2):
        for retrain in (False, True):
            if not vp.take(): continue
            t = 'train %s retrain=%s' % (', '.join('%s %s cv=%s' % TR[i] for i in seq), retrain); vp.describe(t); vp.sample(t)
            w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); os.chdir(w)
            try:
                mod = py2.load(os.path.join(P, 'sol_train.py'), 'sol.sol_train')    # fresh module, as in a new process
                ds = dataset.DataSet('d', data_path=src, pass_num=2); cached = {}
                for n, i in enumerate(seq):
                    algo, params, grid_ = TR[i]; kw = {}
                    given = None
                    if params is not None: given = dict(params); kw['model_params'] = given
                    out = os.path.join(w, 'm%d' % n)
                    try: accu, _, m = inline(lambda: mod.train(ds, algo, output_path=out, fold_num=3, cv_params=grid_, retrain=retrain, **kw))
                    except Exception as e: vp.fail('C25:train-raised', '%s :: call %d raised %r' % (t, n + 1, e)); break
                    want = dict(params or {})
                    if grid_ is not None:
                        if algo in cached and not retrain: bp = cached[algo]
                        else: bp = ref_cv(ds, algo, grid(grid_), {k: v for k, v in want.items() if k not in ('B', 'lambda')}, 3); cached[algo] = bp
                        want.update(bp)
                    r = Ref(algo, 2)
                    for k, v in want.items(): r.set(k, v)
                    a = r.fit(src, 'svm', 2); r.save('ref')
                    vp.step(); vp.state(t, n)
                    if abs(a - accu) > 1e-9 or open(out, 'rb').read() != open('ref', 'rb').read(): vp.fail('C25:train', '%s :: call %d does not give the model of %s with %s' % (t, n + 1, algo, want)); r.close(); break
                    r.close()
                    if given is not None and given != params: vp.fail('C25:caller-params', '%s :: call %d changed the caller\'s parameters from %s to %s' % (t, n + 1, params, given)); break
                    # fine tuning continues from the saved model
                    o2 = os.path.join(w, 'f%d' % n)
                    fa, _, fm = mod.finetune(ds, out, {'verbose': False, 'batch_size': 8, 'bias_eta': 0.5}, o2)
                    r = Ref(); r.load(out); r.set('bias_eta', 0.5); a = r.fit(src, 'svm', 2); r.save('ref'); r.close(); vp.step()
                    if abs(a - fa) > 1e-9 or open(o2, 'rb').read() != open('ref', 'rb').read(): vp.fail('C25:finetune', '%s :: fine tuning after call %d gives another model' % (t, n + 1)); break
                    # testing on other data
                    if n == 0:
                        ta, _, tr, _, _ = inline(lambda: mod.train_test(ds, ds, algo, dict(params or {}), None, 3, grid_, False))
                        r = Ref(); r.load(out); b = r.score(src); r.close()
                        if abs(ta - b) > 1e-9: vp.fail('C25:train-test', '%s :: test accuracy %g instead of %g' % (t, ta, b)); break
                vp.trace()
            finally: os.chdir(base)

# --- the two scripts, by their command lines
RECS3 = [(0, {1: 1.0}), (1, {2: 2.5}), (2, {3: 0.5, 4: 1.0}), (0, {1: 3.0, 2: -1.0}), (1, {2: 1.0, 3: -1.0}), (2, {3: 1.5, 4: 0.25}), (0, {4: 2.0}), (2, {1: -1.0})]
def script(mod, argv):
    old = sys.argv; sys.argv = argv
    try: inline(mod.main)
    finally:
        sys.argv = old; g = logging.getLogger('')
        for h in list(g.handlers): g.removeHandler(h); h.close()
def scripts():
    base = os.getcwd()
    tst = py2.load(os.path.join(P, 'sol_test.py'), 'sol.sol_test')
    for cls in (2, 3):
        for algo, params, cvp in (('ogd', {}, None), ('ogd', {'eta': '0.5', 'bias_eta': '0.25'}, None), ('arow', {'r': '2'}, None), ('ogd', {}, {'eta': [0.01, 1, 16]}), ('fofs', {'B': '2', 'lambda': '0.1'}, {'eta': [0.1, 1]}), ('sofs', {'B': '1'}, None)):
            for typ in ('svm', 'bin', 'csv'):
                for passes, norm, batch, out in itertools.product((1, 3), ('None', 'L1', 'L2'), (None, 1), (True, False)):
                    if not vp.take(): continue
                    recs = (RECS if cls == 2 else RECS3) * 3; w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); os.chdir(w)
                    try:
                        write('d.svm', recs)
                        src = 'd.' + typ
                        if typ != 'svm' and pysol.convert_data('d.svm', 'svm', src, typ) != 0: vp.fail('C25:convert', 'conversion to %s fails' % typ); continue
                        a = [src] + (['m'] if out else []) + ['-a', algo, '-t', typ, '-p', str(passes), '--norm', norm, '-f', '3']
                        if batch: a += ['-b', str(batch), '--buf_size', '1']
                        if params: a += ['--params'] + ['%s=%s' % k for k in sorted(params.items())]
                        if cvp: a += ['--cv'] + ['%s=%s' % k for k in sorted(cvp.items())]
                        t = 'sol_train.py ' + ' '.join(a); vp.describe(t); vp.sample(t); vp.step(); vp.progress()
                        mod = py2.load(os.path.join(P, 'sol_train.py'), 'sol.sol_train')
                        try: script(mod, ['sol_train.py'] + a)
                        except BaseException as e: vp.fail('C25:script', '%s raised %r' % (t, e)); continue
                        vp.trace(); vp.state(t)
                        want = dict(params, norm=norm)
                        if cvp:
                            ds = dataset.DataSet(src, src, typ, passes); ds.split_file(3, 'bin')
                            want.update(ref_cv(ds, algo, grid(cvp), {k: v for k, v in want.items() if k not in ('B', 'lambda')}, 3))
                        r = Ref(algo, cls)
                        for k, v in want.items(): r.set(k, v)
                        r.fit(src, typ, passes); r.save('ref')
                        if os.path.exists('m') != out: vp.fail('C25:script-output', t + (': no model was written' if out else ': a model was written')); r.close(); continue
                        if not out: r.close(); continue
                        if open('m', 'rb').read() != open('ref', 'rb').read(): vp.fail('C25:script-model', '%s does not give the model of %s with %s' % (t, algo, want)); r.close(); continue
                        # testing, with and without writing the predictions; fine tuning from the file
                        d = r.predict(src, typ)
                        for b in ([], ['-b', '1', '--buf_size', '1']):
                            t2 = 'sol_test.py m %s p -t %s' % (src, typ); vp.step(2)
                            try: script(tst, ['sol_test.py', 'm', src, 'p', '-t', typ] + b); script(tst, ['sol_test.py', 'm', src, '-t', typ] + b)
                            except BaseException as e: vp.fail('C25:script', '%s after %s raised %r' % (t2, t, e)); break
                            rows = [[float(x) for x in l.split('\t')] for l in open('p').read().split('\n') if l]
                            if len(rows) != len(d) or any(q[:2] != [l, p_] or not np.allclose(q[2:], s_, rtol=1e-5, atol=1e-5) for q, (l, p_, s_) in zip(rows, d)): vp.fail('C25:script-predictions', '%s after %s wrote %s instead of %s' % (t2, t, rows[:2], d[:2])); break
                        fa = [src, 'm2', '-m', 'm', '-t', typ, '-p', str(passes), '--norm', norm]; t3 = 'sol_train.py ' + ' '.join(fa); vp.step()
                        try: script(mod, ['sol_train.py'] + fa)
                        except BaseException as e: vp.fail('C25:script', '%s after %s raised %r' % (t3, t, e)); r.close(); continue
                        r.load('m'); r.set('norm', norm); r.fit(src, typ, passes); r.save('ref2'); r.close()
                        if open('m2', 'rb').read() != open('ref2', 'rb').read(): vp.fail('C25:script-finetune', '%s after %s gives another model' % (t3, t))
                    finally: os.chdir(base)
    # ill-formed command lines are refused
    for a in ([], ['d.svm'], ['d.svm', 'm', '-a', 'ogd', '-m', 'm'], ['missing', 'm', '-a', 'ogd'], ['d.svm', 'm', '-a', 'ogd', '--params', 'nosuch=1'], ['d.svm', 'm', '-a', 'nosuch', '--params', 'eta=1'], ['d.svm', 'm', '-m', 'missing']):
        if not vp.take(): continue
        w = os.path.abspath(vp.tmp('w')); shutil.rmtree(w, ignore_errors=True); os.makedirs(w); os.chdir(w); err = sys.stderr; sys.stderr = open(os.devnull, 'w')
        try:
            write('d.svm', RECS); t = 'sol_train.py ' + ' '.join(a); vp.describe(t); vp.step(); vp.trace(); vp.state(t)
            mod = py2.load(os.path.join(P, 'sol_train.py'), 'sol.sol_train'); refused = False
            try: script(mod, ['sol_train.py'] + a)
            except BaseException: refused = True
            if not refused or os.path.exists('m'): vp.fail('C25:script-accepted', t + ' was accepted')
        finally: sys.stderr = err; os.chdir(base)

def run():
    scripts(); schedules(); results(); caches(); trainings()
vp.main(run)
