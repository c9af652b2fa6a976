# C24: the Python class does what the library does.  All histories of calls up
# to a depth on the real binding, against the same history on the C interface
# fed with text files; plus array layouts, sizes, life times of what is handed over.
import gc, os, itertools
import numpy as np
import vp
from pysolref import Ref, csr_matrix, svm_file, pysol, L

def txt(s): return s.decode() if isinstance(s, bytes) else s
def same(a, b):
    a = np.asarray(a, dtype=np.float64); b = np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)

def data(cls, n, seed):
    """n records, values exact in single precision"""
    X = np.zeros((n, 4)); y = np.zeros(n)
    for i in range(n):
        c = (i * 7 + seed) % cls; y[i] = c if cls > 2 else (1 if c else -1)
        X[i, c % 4] = 1 + (i % 3) * 0.5; X[i, (i + seed) % 4] += 0.25 * ((i % 5) - 2)
    return X, y
def csr(X, tail=0):
    d, ix, ip = [], [], [0]
    for r in X:
        for j, v in enumerate(r):
            if v != 0: d.append(v); ix.append(j)
        ip.append(len(d))
    return csr_matrix(np.array(d), np.array(ix, dtype=np.int32), np.array(ip, dtype=np.int32), X.shape)

class Handler(object):
    def __init__(self, log, dead): self.log, self.dead = log, dead
    def __call__(self, *a): self.log.append(a)
    def __del__(self): self.dead.append(1)

class History(object):
    def __init__(self, algo, cls, params):
        self.cfg = (algo, cls, params); self.tr = data(cls, 5, 0); self.te = data(cls, 4, 3)
        k = 'c%d' % cls
        self.ftr = svm_file(k + 'tr', *self.tr); self.fte = svm_file(k + 'te', *self.te); self.fzero = svm_file(k + 'te0', self.te[0], np.zeros(4))
        self.saved = None; self.tag = '%s, %d classes' % (algo, cls); self.hist = []
        self.log, self.rlog, self.dead, self.handler = [], [], [], False
        self.m = None; self.create()
    def fail(self, key, msg): vp.fail('C24:' + key, '%s :: %s :: %s' % (self.tag, ', '.join(self.hist), msg)); raise Bad()
    def create(self):
        algo, cls, params = self.cfg
        self.m = pysol.SOL(''.join(list(algo)), cls, **params); self.r = Ref(algo, cls); self.handler = False
        for k, v in params.items(): self.r.set(k, v)
    def same(self, what, a, b):
        if not same(a, b): self.fail(what, 'the binding gave %s, the library %s' % (np.asarray(a).tolist(), np.asarray(b).tolist()))
    def check(self):
        junk = ['x' * n for n in range(1, 24)]
        n, c = txt(self.m.name), self.m.n_classes
        p = {txt(k): txt(v) for k, v in self.m.get_params().items()}; q = self.r.params()
        if p != q: self.fail('params', 'get_params gives %s, the library %s' % (p, q))
        if n != q['model'] or c != int(q['cls_num']): self.fail('name', 'the model is called %r with %d classes, it is %s with %s' % (n, c, q['model'], q['cls_num']))
        self.same('sparsity', self.m.sparsity, self.r.sparsity())
        if self.log != self.rlog: self.fail('reports', 'the handler got %s, the library reported %s' % (self.log, self.rlog))
        if self.handler and self.dead: self.fail('handler-lost', 'the handler was destroyed while it is still registered')
        vp.step(); vp.state(n, c, sorted(q.items()), len(self.rlog))
    def scores(self, d): s = [x[2] for x in d]; return [x[0] for x in s] if len(s[0]) == 1 else s
    def op(self, o):
        m, r = self.m, self.r; X, y = self.tr; T, u = self.te
        if o == 0: self.hist.append('fit file'); self.same('fit', m.fit(self.ftr, 'svm'), r.fit(self.ftr))
        elif o == 1: self.hist.append('fit array, 2 passes'); self.same('fit', m.fit(X, y, 2), r.fit(self.ftr, 'svm', 2))
        elif o == 2: self.hist.append('fit csr'); self.same('fit', m.fit(csr(X), y), r.fit(self.ftr))
        elif o == 3: self.hist.append('score file'); self.same('score', m.score(self.fte, 'svm'), r.score(self.fte))
        elif o == 4: self.hist.append('score csr'); self.same('score', m.score(csr(T), u), r.score(self.fte))
        elif o == 5: self.hist.append('predict array, labels'); p, l = m.predict(T, u, True); d = r.predict(self.fte); self.same('predict', p, [x[1] for x in d]); self.same('labels', l, [x[0] for x in d])
        elif o == 6: self.hist.append('predict array'); self.same('predict', m.predict(T), [x[1] for x in r.predict(self.fzero)])
        elif o == 7: self.hist.append('scores of file, labels'); s, p, l = m.decision_function(self.fte, 'svm', True); d = r.predict(self.fte); self.same('scores', s, self.scores(d)); self.same('predict', p, [x[1] for x in d]); self.same('labels', l, [x[0] for x in d])
        elif o == 8: self.hist.append('scores of csr'); self.same('scores', m.decision_function(csr(T)), self.scores(r.predict(self.fzero)))
        elif o == 9: self.hist.append('set bias_eta'); m.set_params(bias_eta=0.5); r.set('bias_eta', 0.5)
        elif o == 10:
            self.hist.append('set nonsense')
            try: m.set_params(nosuch=1)
            except RuntimeError: r.set('nosuch', 1)
            else: self.fail('accepted', 'a parameter that does not exist was accepted')
        elif o == 11:
            self.hist.append('save'); p = vp.tmp('a.model'); q = vp.tmp('b.model')
            for f in (p, q):
                if os.path.exists(f): os.remove(f)
            m.save(p); r.save(q); self.saved = open(q, 'rb').read()
            if not os.path.exists(p) or open(p, 'rb').read() != self.saved: self.fail('save', 'the saved file is not the library\'s')
        elif o == 12:
            self.hist.append('load'); p = vp.tmp('l.model')
            open(p, 'wb').write(self.saved if self.saved is not None else OTHER[self.cfg[1]])
            a = m.load(p); b = r.load(p); self.handler = False
            if a is not m or not b: self.fail('load', 'load returned %r' % (a,))
        elif o == 13:
            self.hist.append('handler'); self.dead = []
            h = Handler(self.log, self.dead); m.inspect_learning(h); r.inspect(self.rlog.append); self.handler = True; del h
            gc.collect()
        elif o == 14:
            self.hist.append('fit missing file')
            try: m.fit(vp.tmp('missing'), 'svm')
            except RuntimeError: r.load_data(vp.tmp('missing'))
            else: self.fail('missing', 'a missing file was trained on without an error')
        elif o == 15:
            self.hist.append('new object'); m = None; self.close(); self.create()
        elif o == 16:
            self.hist.append('save to a missing directory')
            try: m.save(vp.tmp('nodir') + '/a/b')
            except RuntimeError: r.save(vp.tmp('nodir') + '/a/b')
            else: self.fail('save-failure', 'a model that could not be saved was reported as saved')
        self.check()
    def close(self):
        self.m = None; self.handler = False; self.r.close(); gc.collect()
        if L.vp_live_models(): self.fail('leak', '%d models never released' % L.vp_live_models())
        if L.vp_live_iters(): self.fail('leak', '%d data iterators never released' % L.vp_live_iters())
        if L.vp_bad(): self.fail('handle', 'a released handle was used or released again')
NOPS = 17
class Bad(Exception): pass

CONFIGS = [('ogd', 2, {}), ('arow', 3, {'r': 0.5}), ('fofs', 2, {'B': 2})]

def history(cfg, seq):
    h = None
    try:
        h = History(*cfg); h.check()
        for o in seq: h.op(o)
        h.close()
    except Bad: raise vp.Stop()     # the object is in an unknown state: end this process' enumeration
    vp.trace()

def layouts():
    """every memory layout of the same numbers"""
    X, y = data(2, 6, 1); n = X.shape[0]
    big = np.zeros((2 * n, 9)); big[::2, 1:9:2] = X; big[1::2] = 7; big[::2, 0::2] = 9
    yb = np.zeros(2 * n); yb[::2] = y; yb[1::2] = 5
    xs = {'plain': X, 'fortran': np.asfortranarray(X), 'transposed': np.ascontiguousarray(X.T).T, 'every other row': np.repeat(X, 2, axis=0)[::2],
          'every other column': np.repeat(X, 2, axis=1)[:, ::2], 'inside a larger array': big[::2, 1:9:2], 'reversed twice': X[::-1].copy()[::-1], 'a copy': X.copy(),
          'leading columns of a wider array': np.hstack([X, X + 3])[:, :4], 'read only': X.copy()}
    xs['read only'].setflags(write=False)
    ys = {'plain': y, 'every other': yb[::2], 'reversed twice': y[::-1].copy()[::-1], 'column of a table': np.column_stack([y, y + 1])[:, 0]}
    f = svm_file('layout', X, y); f0 = svm_file('layout0', X, np.zeros(n))
    for xn in sorted(xs):
        for yn in sorted(ys):
            if not vp.take(): continue
            t = 'X: %s, y: %s' % (xn, yn); vp.describe(t); vp.sample('layout ' + t)
            m = pysol.SOL('ogd', 2); r = Ref('ogd', 2)
            A = (m.fit(xs[xn], ys[yn]), m.score(xs[xn], ys[yn]), m.decision_function(xs[xn]).tolist(), m.predict(xs[xn], ys[yn], True)[1].tolist())
            a = r.fit(f); b = r.score(f); c = [x[2][0] for x in r.predict(f0)]; d = [x[0] for x in r.predict(f)]
            vp.step(4); vp.trace(); vp.state(t)
            if A != (a, b, c, d): vp.fail('C24:layout', '%s: the binding gave %s, the library %s' % (t, A, (a, b, c, d)))
            r.close()
    # sparse rows inside larger index arrays
    for yn in sorted(ys):
        if not vp.take(): continue
        m = pysol.SOL('ogd', 2); r = Ref('ogd', 2); C = csr(X)
        wide = csr_matrix(np.repeat(C.data, 2)[::2], np.repeat(C.indices, 2)[::2], np.repeat(C.indptr, 2)[::2], C.shape)
        l64 = csr_matrix(C.data, C.indices.astype(np.int64), C.indptr.astype(np.int64), C.shape)
        for nm, Z in (('plain', C), ('strided', wide), ('64-bit indices', l64)):
            t = 'sparse %s, y: %s' % (nm, yn); vp.describe(t)
            A = (m.fit(Z, ys[yn]), m.decision_function(Z).tolist()); B = (r.fit(f), [x[2][0] for x in r.predict(f0)])
            vp.step(2); vp.trace(); vp.state(t)
            if A != B: vp.fail('C24:layout-sparse', '%s: the binding gave %s, the library %s' % (t, A, B))
        r.close()

def sizes():
    for n in (1, 2, 255, 256, 257, 511, 513, 20000, 70000):
        for kind in ('array', 'csr'):
            for what in ('predict', 'scores', 'labels'):
                if not vp.take(): continue
                t = '%s of %s of %d rows without labels' % (what, kind, n); vp.describe(t)
                X, y = data(2, min(n, 500), 2); k = (n + len(y) - 1) // len(y)
                X = np.tile(X, (k, 1))[:n]; y = np.tile(y, k)[:n]
                m = pysol.SOL('ogd', 2); r = Ref('ogd', 2); f = svm_file('n%d' % n, X, y); f0 = svm_file('z%d' % n, X, np.zeros(n))
                m.fit(X[:200], y[:200]); r.fit(svm_file('h%d' % n, X[:200], y[:200]))
                Z = csr(X) if kind == 'csr' else X
                d = r.predict(f0)
                if what == 'predict': a, b = m.predict(Z), [x[1] for x in d]
                elif what == 'scores': a, b = m.decision_function(Z), [x[2][0] for x in d]
                else: a, b = m.predict(Z, None, True)[1], [x[0] for x in d]
                vp.step(); vp.trace(); vp.state(t)
                if not same(a, b): vp.fail('C24:size', t + ': differs from the library')
                r.close()

def nomodel():
    """calls on an object without a model must be refused, not end the program"""
    X, y = data(2, 3, 0); p = vp.tmp('bad.model'); open(p, 'w').write('nonsense')
    ops = {'fit': lambda m: m.fit(X, y), 'score': lambda m: m.score(X, y), 'predict': lambda m: m.predict(X), 'scores': lambda m: m.decision_function(X),
           'save': lambda m: m.save(vp.tmp('x')), 'set': lambda m: m.set_params(eta=1), 'params': lambda m: m.get_params()}
    def unknown(): return pysol.SOL('nosuchalgorithm', 2)
    def lost():
        m = pysol.SOL('ogd', 2); m.fit(X, y)
        if m.load(p) is not None: vp.fail('C24:bad-load', 'a file that is no model was loaded')
        return m
    for name, mk in (('SOL()', pysol.SOL), ('unknown algorithm', unknown), ('failed load', lost)):
        for o in sorted(ops):
            if not vp.take(): continue
            t = '%s of %s' % (o, name); vp.describe(t); vp.step(); vp.trace(); vp.state(t)
            m = mk()
            if m.sparsity != 0: vp.fail('C24:no-model', 'sparsity of %s' % name)
            m.inspect_learning(lambda *a: None)
            try: ops[o](m)
            except AssertionError: pass
            else: vp.fail('C24:no-model', t + ' was not refused')
            del m; gc.collect()
            if L.vp_live_models() or L.vp_live_iters() or L.vp_bad(): vp.fail('C24:no-model-leak', t + ': %d models, %d iterators left' % (L.vp_live_models(), L.vp_live_iters())); raise vp.Stop()

def run():
    global OTHER
    OTHER = {}
    for c, n in ((2, 2), (3, 4)):
        r = Ref('pa1', n); X, y = data(n, 5, 0); r.fit(svm_file('other%d' % n, X, y)); r.save(vp.tmp('o.model')); r.close(); OTHER[c] = open(vp.tmp('o.model'), 'rb').read()
    layouts(); sizes(); nomodel()
    for cfg in CONFIGS:
        for seq in vp.sequences(NOPS, 1, 4 if vp.C.thorough else 3):
            if not vp.take(): continue
            vp.describe('%s %s' % (cfg, seq)); vp.sample('%s %d classes, operations %s' % (cfg[0], cfg[1], list(seq)))
            history(cfg, seq)
vp.main(run)
