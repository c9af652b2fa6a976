"""Python side of the harness protocol of vp.h: sharded exhaustive enumeration
of cases, outcome hashing, violation recording, hang watchdog."""
import sys, os, struct, mmap, signal, json, hashlib, itertools, time

class Stop(BaseException):
    pass

class C:
    shard = 0; nshards = 1; only = -1; thorough = False; shallow = False; verbose = False
    out = ''; scratch = '.'; next_case = 0; cur = -1; cases = 0; transitions = 0; traces = 0
    states = set(); samples = []; keys = set(); viol = None; nviol = 0; extra = {}; hang = 60; mm = None
    stuck = 0; last = None; deadline = 0; capped = False

def _tick(*_):
    v = bytes(C.mm[:16]) if C.mm is not None else b''
    if C.cur >= 0 and v == C.last:
        C.stuck += 1
        if C.stuck * 2 >= C.hang:
            os.write(2, b'VP-HANG\n'); os._exit(78)
    else: C.stuck = 0
    C.last = v

_done = 0
def progress():
    global _done
    _done += 1; C.mm[8:16] = struct.pack('q', _done)

def init():
    a = sys.argv[1:]; i = 0
    while i < len(a):
        if a[i] in ('--thorough', '--shallow', '--verbose'): setattr(C, a[i][2:], True)
        elif a[i].startswith('--'):
            k = a[i][2:]; i += 1
            if k in ('shard', 'nshards', 'only', 'hang'): setattr(C, k, int(a[i]))
            elif k == 'budget': C.deadline = time.time() + float(a[i])
            elif k in ('out', 'scratch'): setattr(C, k, a[i])
        i += 1
    if C.out:
        C.viol = open(C.out + '.viol', 'w')
        f = open(C.out + '.cur', 'w+b'); f.write(struct.pack('qq', -1, 0)); f.flush(); C.mm = mmap.mmap(f.fileno(), 16); f.close()
    else: C.mm = bytearray(struct.pack('qq', -1, 0))
    # a thread, not a signal: the case may be blocked inside C code
    import threading
    def w():
        while True:
            time.sleep(2); _tick()
    t = threading.Thread(target=w, daemon=True); t.start()

def take():
    i = C.next_case; C.next_case += 1
    if C.only >= 0:
        if i != C.only: return False
    elif i % C.nshards != C.shard: return False
    if C.deadline and time.time() > C.deadline: C.capped = True; return False
    C.cur = i; C.mm[0:8] = struct.pack('q', i); C.cases += 1
    return True

def step(n=1): C.transitions += n
def trace(n=1): C.traces += n
def state(*v): C.states.add(struct.unpack('Q', hashlib.sha1(repr(v).encode()).digest()[:8])[0])
def sample(s):
    if len(C.samples) < 3: C.samples.append(s[:300])
def extra(k, v): C.extra[k] = C.extra.get(k, 0) + v
def describe(s):
    if C.verbose: os.write(2, ('CASE %d: %s\n' % (C.cur, s)).encode())
def fail(key, msg):
    C.nviol += 1
    m = str(msg).replace('\n', '\t')
    if C.verbose: os.write(2, ('FAIL key=%s case=%d %s\n' % (key, C.cur, m)).encode())
    if C.viol and key not in C.keys:
        C.keys.add(key); C.viol.write('%s\x1f%d\x1f%s\n' % (key, C.cur, m[:3000])); C.viol.flush()
    if len(C.keys) >= 40: raise Stop()
def tmp(n): return os.path.join(C.scratch, n)
def sequences(k, mind, maxd):
    for d in range(mind, maxd + 1):
        for s in itertools.product(range(k), repeat=d): yield s

def finish():
    C.cur = -1; C.mm[0:8] = struct.pack('q', -1)
    if C.viol: C.viol.close()
    if not C.out:
        sys.stderr.write('cases=%d states=%d viol=%d\n' % (C.cases, len(C.states), C.nviol)); return
    with open(C.out + '.states', 'wb') as f:
        for h in C.states: f.write(struct.pack('Q', h))
    json.dump({'cases': C.cases, 'total_cases': C.next_case, 'transitions': C.transitions, 'traces': C.traces, 'capped': C.capped,
               'nviol': C.nviol, 'samples': C.samples, 'extra': C.extra}, open(C.out + '.json', 'w'))

def main(run):
    init()
    if not C.verbose:
        n = os.open('/dev/null', os.O_WRONLY); os.dup2(n, 1); os.dup2(n, 2)
    try: run()
    except Stop: pass
    except KeyboardInterrupt: raise
    except BaseException as e:      # what the code under test raised, where no case expects it
        import traceback
        pid = os.path.basename(sys.argv[0])[:3].upper()
        fail(pid + ':ended', 'the program was ended by %s %r at %s' % (type(e).__name__, e, '; '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in traceback.extract_tb(e.__traceback__)[-3:])))
    finish()
    os._exit(0)
