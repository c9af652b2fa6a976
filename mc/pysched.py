"""A stand-in for multiprocessing whose processes, queues and queue feeders are
stepped by an exhaustive scheduler (depth-first over all choices, bounded number
of delays: choices other than the default one).  Processes do not share memory: whatever passes a queue is copied."""
import threading, pickle, types, sys, queue as _q

class Violation(Exception): pass
class Killed(BaseException): pass

class Actor(object):
    def __init__(self, s, name, fn, pid): self.s, self.name, self.fn, self.pid = s, name, fn, pid; self.sem = threading.Semaphore(0); self.done = False; self.cond = None; self.error = None

class Sched(object):
    def __init__(self, prefix, bound): self.prefix, self.bound = prefix, bound; self.actors = []; self.trace = []; self.cur = None; self.steps = 0; self.dead = False; self.used = 0
    def spawn(self, name, fn, pid):
        a = Actor(self, name, fn, pid); self.actors.append(a)
        def body():
            a.sem.acquire()
            try:
                if self.dead: raise Killed()
                fn()
            except Killed: pass
            except BaseException as e: a.error = e
            a.done = True
            if not self.dead: self.choose(None)
        a.thread = threading.Thread(target=body, daemon=True); a.thread.start()
        return a
    def enabled(self): return [a for a in self.actors if not a.done and (a.cond is None or a.cond())]
    def choose(self, me):
        """pick who runs next; called by the running actor at every visible operation"""
        en = self.enabled(); self.steps += 1
        if self.steps > 3000: self.end = 'endless'; self.stop(); return
        if not en: self.end = None; self.stop(); return
        # the running actor first: going on is not a preemption
        en.sort(key=lambda a: (a is not me, self.actors.index(a)))
        k = len(self.trace)
        opts = len(en) if self.used < self.bound else 1      # every choice but the default one is a delay
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((c, opts))
        if c: self.used += 1
        nxt = en[c]
        if nxt is me: return
        nxt.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.dead: raise Killed()
    def point(self, cond=None):
        me = self.me()
        if self.dead: raise Killed()
        me.cond = cond; self.choose(me); me.cond = None
        if self.dead: raise Killed()
    def me(self):
        t = threading.current_thread()
        for a in self.actors:
            if a.thread is t: return a
        raise RuntimeError('not an actor')
    def stop(self):
        self.dead = True
        for a in self.actors: a.sem.release()
        self.finished.set()
    def run(self, main):
        self.finished = threading.Event(); self.end = None
        a = self.spawn('main', main, 0); a.sem.release(); self.finished.wait()
        for x in self.actors: x.thread.join(10)
        return self

S = None
class Queue(object):
    """put hands over to a feeder of the putting process, which delivers in order at any later time"""
    def __init__(self, *a, **k): self.items = []; self.buf = {}
    def put(self, v, *a, **k):
        me = S.me(); d = pickle.dumps(v)
        S.point()
        if me.pid not in self.buf:
            b = self.buf[me.pid] = []
            def feed():
                while True:
                    S.point(lambda: bool(b)); self.items.append(b.pop(0))
            f = S.spawn('feeder', feed, me.pid); f.cond = lambda: bool(b); f.feeder = True
        self.buf[me.pid].append(d)
    put_nowait = put
    def get(self, block=True, timeout=None):
        if not block or timeout is not None:
            S.point()
            if not self.items: raise _q.Empty()
        else: S.point(lambda: bool(self.items))
        return pickle.loads(self.items.pop(0))
    def get_nowait(self): return self.get(False)
    def empty(self): S.point(); return not self.items
    def qsize(self): S.point(); return len(self.items)
    def close(self): pass
    def join_thread(self): pass
    def cancel_join_thread(self): pass

class Process(object):
    n = 0
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None): self.t, self.a, self.k, self.daemon, self.name = target, args, kwargs or {}, False, name or 'p'
    def start(self):
        S.point(); Process.n += 1; pid = Process.n
        self.actor = S.spawn('worker%d' % pid, lambda: self.t(*self.a, **self.k), pid)
    def over(self): return self.actor.done and not any(q for q in self.pending())
    def pending(self): return [b for q in QUEUES for p, b in q.buf.items() if p == self.actor.pid and b]
    def join(self, timeout=None): S.point(self.over)
    def is_alive(self): S.point(); return not self.over()
    def terminate(self): self.actor.done = True
QUEUES = []
_init = Queue.__init__
def _reg(self, *a, **k): _init(self, *a, **k); QUEUES.append(self)
Queue.__init__ = _reg

def install():
    m = types.ModuleType('multiprocessing'); m.Process, m.Queue, m.SimpleQueue, m.JoinableQueue = Process, Queue, Queue, Queue; m.cpu_count = lambda: 4
    m.current_process = lambda: types.SimpleNamespace(name='p')
    sys.modules['multiprocessing'] = m

def explore(main, check, bound, limit=10**9):
    """runs main under every schedule; check(sched) after each; returns (schedules, steps)"""
    global S
    prefix = []; n = steps = 0
    while True:
        Process.n = 0; QUEUES[:] = []
        S = s = Sched(prefix, bound); s.run(main); n += 1; steps += s.steps
        r = check(s)
        if r is not None or n >= limit: return n, steps, r, [c for c, _ in s.trace]
        t = s.trace
        i = len(t) - 1
        while i >= 0 and t[i][0] + 1 >= t[i][1]: i -= 1
        if i < 0: return n, steps, None, None
        prefix = [c for c, _ in t[:i]] + [t[i][0] + 1]
