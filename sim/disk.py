"""Controller of the simulated disk: runs sessions (processes) whose every disk
operation waits for a verdict, and decides the order and the faults."""
import ctypes as ct
import errno
import os
import pickle
import re
import select
import signal
import struct
import time

GO, ERR, SHORT, KILL_BEFORE, KILL_AFTER, KILL_PART = range(6)
VNAME = ['go', 'error', 'short', 'crash before', 'crash after', 'crash midway']


def lib():
    return ct.CDLL(None)


def set_overlay(path):
    lib().sd_overlay(path.encode())


def plan(op=None, name='', first=0, last=1 << 30, what=0, arg=0):
    """Fault decided in advance, for operations of this process on a file."""
    lib().sd_plan(op.encode() if op else None, name.encode(), first, last, what, arg)


def seen():
    return lib().sd_seen()


class Session:
    """A forked process running fn(arg) -> picklable, under disk control."""

    def __init__(self, fn, arg, ignore=''):
        q_r, q_w = os.pipe()
        v_r, v_w = os.pipe()
        o_r, o_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            for fd in (q_r, v_w, o_r):
                os.close(fd)
            try:
                L = lib()
                L.sd_ignore(ignore.encode())
                L.sd_control(q_w, v_r)
                try:
                    out = ('ok', fn(arg))
                except BaseException as e:
                    import traceback
                    out = ('err', f"{type(e).__name__}: {e}",
                           traceback.format_exc())
                L.sd_off()
                b = pickle.dumps(out)
                while b:
                    b = b[os.write(o_w, b):]
            finally:
                os._exit(0)
        for fd in (q_w, v_r, o_w):
            os.close(fd)
        self.q, self.v, self.o = q_r, v_w, o_r
        self.buf, self.outbuf = b'', b''
        self.pending = None           # the operation it waits with
        self.last = None              # result of its last operation
        self.ended = False
        self.out = None
        self.killed = False

    def pump(self, timeout=60):
        """Until it asks, or ended."""
        end = time.time() + timeout
        qopen = True
        while True:
            while b'\n' in self.buf:
                line, self.buf = self.buf.split(b'\n', 1)
                f = line.decode(errors='replace').split('\t')
                if f[0] == 'ask':
                    self.pending = (f[1], f[2], f[3], int(f[4]))
                    return
                self.last = (f[1], int(f[2]))
            fds = ([self.q] if qopen else []) + [self.o]
            rs, _, _ = select.select(fds, [], [], max(0, end - time.time()))
            if not rs:
                os.kill(self.pid, signal.SIGKILL)
                self.out = ('hung', None)
                self._end()
                return
            if self.q in rs:
                b = os.read(self.q, 65536)
                if b:
                    self.buf += b
                    continue
                qopen = False
            if self.o in rs:
                b = os.read(self.o, 1 << 20)
                if b:
                    self.outbuf += b
                elif not qopen or not self.buf:
                    self._end()
                    return

    def _end(self):
        os.waitpid(self.pid, 0)
        for fd in (self.q, self.v, self.o):
            os.close(fd)
        self.ended = True
        self.pending = None
        if self.out is None:
            try:
                self.out = pickle.loads(self.outbuf)
            except Exception:
                self.out = ('died', None)

    def answer(self, what, arg=0):
        self.pending = None
        self.killed = self.killed or what >= KILL_BEFORE
        os.write(self.v, struct.pack('ii', what, arg))
        self.pump()


def norm(name):
    """Temporary names contain ids that differ from process to process."""
    return re.sub(r'\d{3,}', '#', re.sub(r'(?<=[._-])[0-9a-z_]{6,}(?=(\.tmp)?$)', '#', name))


ERRS = {'open-read': [errno.EIO, errno.EACCES, errno.EMFILE],
        'open-write': [errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EMFILE],
        'open-trunc': [errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EMFILE],
        'read': [errno.EIO], 'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT],
        'close': [errno.EIO, errno.ENOSPC], 'rename': [errno.EACCES, errno.EIO, errno.ENOSPC],
        'unlink': [errno.EACCES, errno.EIO], 'fsync': [errno.EIO], 'link': [errno.EPERM],
        'truncate': [errno.EIO]}


def choose_fault(r, op, n, kinds):
    """A verdict for operation `op` over `n` bytes."""
    k = r.choice(kinds)
    if k == 'error':
        return ERR, r.choice(ERRS[op])
    if k == 'short' and op in ('read', 'write') and n > 0:
        return SHORT, r.randrange(1 if op == 'read' else 0, max(2, n))
    if k == 'crash':
        if op == 'write' and n > 0 and r.random() < .5:
            return KILL_PART, r.randrange(n)
        return r.choice([KILL_BEFORE, KILL_AFTER]), 0
    return GO, 0
