"""Stand-ins the Python binding needs here (scipy is not installed) and a second
driver of the library, through ctypes on its C interface and text files only."""
import sys, os, types, ctypes, gc
import numpy as np
import vp

_sp = types.ModuleType('scipy'); _ss = types.ModuleType('scipy.sparse')
class csr_matrix(object):
    """what the binding uses of scipy.sparse.csr_matrix"""
    def __init__(self, data, indices, indptr, shape):
        self.data, self.indices, self.indptr, self.shape = data, indices, indptr, shape
        self.dtype = data.dtype
_ss.csr_matrix = csr_matrix; _sp.sparse = _ss
sys.modules['scipy'] = _sp; sys.modules['scipy.sparse'] = _ss
import pysol

L = ctypes.CDLL(os.environ['VP_SO'])
V, S, I = ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int
def sig(n, r, *a):
    f = getattr(L, n); f.restype = r; f.argtypes = a
sig('sol_CreateModel', V, S, I); sig('sol_RestoreModel', V, S); sig('sol_ReleaseModel', None, ctypes.POINTER(V))
sig('sol_CreateDataIter', V, I, I); sig('sol_ReleaseDataIter', None, ctypes.POINTER(V)); sig('sol_LoadData', I, V, S, S, I)
sig('sol_SaveModel', I, V, S); sig('sol_SetModelParameter', I, V, S, S); sig('sol_Train', ctypes.c_float, V, V)
sig('sol_Test', ctypes.c_float, V, V, S); sig('sol_model_sparsity', ctypes.c_float, V)
PCB = ctypes.CFUNCTYPE(None, V, S, S); sig('sol_GetModelParameters', None, V, PCB, V)
DCB = ctypes.CFUNCTYPE(None, V, ctypes.c_double, ctypes.c_double, I, ctypes.POINTER(ctypes.c_float)); sig('sol_Predict', I, V, V, DCB, V)
ICB = ctypes.CFUNCTYPE(None, V, ctypes.c_longlong, ctypes.c_longlong, ctypes.c_longlong, ctypes.c_double); sig('sol_InspectOnlineIteration', None, V, ICB, V)
for n in ('vp_live_models', 'vp_live_iters', 'vp_bad'): sig(n, I)

def svm_file(name, X, y):
    p = vp.tmp(name + '.svm')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            for r, l in zip(X, y):
                f.write('%d%s\n' % (l, ''.join(' %d:%r' % (j + 1, float(v)) for j, v in enumerate(r) if v != 0)))
    return p

class Ref(object):
    def __init__(self, algo=None, cls=2, batch=256, buf=2):
        self.m = L.sol_CreateModel(algo.encode(), cls) if algo else None
        self.d = L.sol_CreateDataIter(batch, buf); self.cb = None; self.reports = []
        if self.m: self.inspect(None)
    def load_data(self, path, typ='svm', passes=1): return L.sol_LoadData(self.d, path.encode(), typ.encode(), passes)
    def set(self, k, v): return L.sol_SetModelParameter(self.m, k.encode(), str(v).encode())
    def fit(self, path, typ='svm', passes=1):
        self.load_data(path, typ, passes); return 1 - L.sol_Train(self.m, self.d)
    def score(self, path, typ='svm'):
        self.load_data(path, typ); return 1 - L.sol_Test(self.m, self.d, None)
    def predict(self, path, typ='svm'):
        self.load_data(path, typ); out = []
        cb = DCB(lambda u, l, p, n, s: out.append((l, p, [s[i] for i in range(n)])))
        L.sol_Predict(self.m, self.d, cb, None); return out
    def params(self):
        out = {}
        cb = PCB(lambda u, k, v: out.__setitem__(k.decode(), v.decode())); L.sol_GetModelParameters(self.m, cb, None); return out
    def sparsity(self): return L.sol_model_sparsity(self.m)
    def inspect(self, fn):
        self.cb = ICB((lambda u, a, b, c, d: fn((a, b, c, d))) if fn else (lambda u, a, b, c, d: None))
        L.sol_InspectOnlineIteration(self.m, self.cb, None)
    def save(self, p): return L.sol_SaveModel(self.m, p.encode())
    def load(self, p):
        if self.m: self.free_model()
        self.m = L.sol_RestoreModel(p.encode())
        if self.m: self.inspect(None)
        return self.m is not None
    def free_model(self):
        h = V(self.m); L.sol_ReleaseModel(ctypes.byref(h)); self.m = None
    def close(self):
        if self.d: h = V(self.d); L.sol_ReleaseDataIter(ctypes.byref(h)); self.d = None
        if self.m: self.free_model()
