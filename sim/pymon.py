"""Control over Python code of the package at the level of single bytecode
instructions and calls: where threads switch, and where exceptions strike."""
import sys
import threading
import types
import _thread

TOOL = 3
E = sys.monitoring.events
_codes = None


def codes():
    """Code objects of the package, found by what the process has loaded."""
    global _codes
    if _codes is None:
        seen = {}

        def walk(c):
            if c not in seen and 'ssqueezepy' in c.co_filename:
                seen[c] = 1
                for k in c.co_consts:
                    if isinstance(k, types.CodeType):
                        walk(k)

        def look(o, mod, depth=0):
            if isinstance(o, (staticmethod, classmethod)):
                o = o.__func__
            if isinstance(o, property):
                for f in (o.fget, o.fset, o.fdel):
                    if f is not None:
                        look(f, mod, depth)
            elif isinstance(o, types.FunctionType):
                walk(o.__code__)
                for cell in o.__closure__ or ():
                    try:
                        if depth < 3:
                            look(cell.cell_contents, mod, depth + 1)
                    except ValueError:
                        pass
                if hasattr(o, '__wrapped__') and depth < 3:
                    look(o.__wrapped__, mod, depth + 1)
            elif isinstance(o, type) and getattr(o, '__module__', '').startswith('ssqueezepy'):
                if depth < 3:
                    for v in list(vars(o).values()):
                        look(v, mod, depth + 1)
        for name in sorted(sys.modules):
            if name.split('.')[0] == 'ssqueezepy':
                for v in list(vars(sys.modules[name]).values()):
                    look(v, name)
        _codes = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    return _codes


def start(events, callbacks):
    m = sys.monitoring
    m.use_tool_id(TOOL, 'ssqsim')
    for ev, cb in callbacks.items():
        m.register_callback(TOOL, ev, cb)
    for c in codes():
        m.set_local_events(TOOL, c, events)


def stop():
    m = sys.monitoring
    for c in codes():
        m.set_local_events(TOOL, c, 0)
    m.free_tool_id(TOOL)


# ---- faults --------------------------------------------------------------------
class Striker:
    """Raises `exc` at the k-th place where it could happen: a call (of Python or
    C code) about to be made, a function being entered, a loop going round.
    k < 0 only counts the places."""

    def __init__(self, exc, k, where='call'):
        self.exc, self.k, self.n, self.at, self.where = exc, k, 0, None, where
        self.tid = _thread.get_ident()

    def _place(self, code, off, what):
        if _thread.get_ident() != self.tid:
            return
        i = self.n
        self.n += 1
        if i == self.k:
            line = code.co_firstlineno
            for s, e, l in code.co_lines():
                if s <= off < e:
                    line = l
            self.at = (code.co_name, line)
            raise self.exc

    def __enter__(self):
        ev, cb = E.CALL, {E.CALL: lambda c, o, f, a: self._place(c, o, f)}
        if self.where == 'any':
            ev |= E.PY_START | E.JUMP
            cb[E.PY_START] = lambda c, o: self._place(c, o, 'start')
            cb[E.JUMP] = lambda c, o, d: self._place(c, o, 'jump') if d < o else None
        start(ev, cb)
        return self

    def __exit__(self, *a):
        stop()


# ---- threads -------------------------------------------------------------------
class Deadlock(Exception):
    pass


_baton = None


class Baton:
    """Runs functions in real threads of which one at a time advances. Before each
    bytecode instruction of the package the schedule may pass the baton.

    policy: callable (n, tid, code, alive) -> thread to run next."""

    def __init__(self, fns, policy, first=0, limit=20_000_000):
        self.fns, self.policy, self.first, self.limit = fns, policy, first, limit
        self.sem = [_thread.allocate_lock() for _ in fns]
        for s in self.sem:
            s.acquire()
        self.alive = list(range(len(fns)))
        self.out = [None] * len(fns)
        self.n = 0
        self.switches = []              # (instruction, thread)
        self.ids = {}
        self.cur = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.waits = 0
        self.seen = set()

    def run(self):
        global _baton
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True)
               for i in range(len(self.fns))]
        _baton = self
        start(E.INSTRUCTION, {E.INSTRUCTION: self._instr})
        try:
            for t in ths:
                t.start()
            self.cur = self.first
            self.sem[self.first].release()
            if not self.done.acquire(timeout=100):
                raise Deadlock("threads made no progress")
            for t in ths:
                t.join(10)
        finally:
            stop()
            _baton = None
        return self.out

    def _body(self, i):
        self.ids[_thread.get_ident()] = i
        self.sem[i].acquire()
        try:
            self.out[i] = self.fns[i]()
        except BaseException as e:
            self.out[i] = ('harness', f'{type(e).__name__}: {e}')
        self.alive.remove(i)
        if self.alive:
            self.cur = self.alive[0]
            self.sem[self.cur].release()
        else:
            self.done.release()

    def _instr(self, code, off):
        i = self.ids.get(_thread.get_ident())
        if i is None or i != self.cur:
            return
        n = self.n
        self.n = n + 1
        if len(self.alive) > 1:
            j = self.policy(n, i, code, self.alive)
            if j != i:
                self.seen.add((code.co_name, off))
                self.switch(i, j)

    def switch(self, i, j):
        self.switches.append((self.n - 1, j))
        self.cur = j
        self.sem[j].release()
        self.sem[i].acquire()

    def blocked(self):
        """The running thread waits for a lock that another one holds."""
        i = self.ids[_thread.get_ident()]
        self.waits += 1
        others = [j for j in self.alive if j != i]
        if not others or self.waits > 100000:
            raise Deadlock("every thread waits for a lock")
        j = others[self.waits % len(others)]
        self.cur = j
        self.sem[j].release()
        self.sem[i].acquire()


class CoopLock:
    """threading.Lock / RLock for simulated threads: waiting passes the baton."""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        b = _baton
        if b is None or _thread.get_ident() not in b.ids:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            b.blocked()
        return True

    def release(self):
        self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):
        return getattr(self._l, k)


def install_locks():
    L, R = threading.Lock, threading.RLock
    threading.Lock = lambda: CoopLock(L())
    threading.RLock = lambda: CoopLock(R())
