"""Puts numba's threading layer behind the simulator (see vsched.c)."""
import ctypes as ct
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
NATIVE, STEP = 0, 1
UNIFORM, PCT, BURST, REPLAY = 0, 1, 2, 3
_lib = None


def build(outdir):
    so = os.path.join(outdir, 'vsched.so')
    if not os.path.exists(so):
        tmp = so + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O2', '-fno-omit-frame-pointer', '-shared',
                        '-fPIC', '-o', tmp, os.path.join(HERE, 'vsched.c')],
                       check=True)
        os.replace(tmp, so)
    return so


def install(so):
    """Must run before any parallel numba function is compiled or loaded."""
    global _lib
    if _lib is not None:
        return _lib
    import llvmlite.binding as ll
    import numba.np.ufunc.parallel as P
    lib = ct.CDLL(so)
    sym = dict(numba_parallel_for='vs_parallel_for',
               do_scheduling_signed='vs_do_scheduling',
               do_scheduling_unsigned='vs_do_scheduling',
               allocate_sched='vs_allocate_sched',
               deallocate_sched='vs_deallocate_sched',
               get_num_threads='vs_get_num_threads',
               set_num_threads='vs_set_num_threads',
               get_thread_id='vs_get_thread_id',
               get_parallel_chunksize='vs_get_chunksize',
               set_parallel_chunksize='vs_set_chunksize',
               get_sched_size='vs_get_sched_size')

    def launch():
        if P._is_initialized:
            return
        for name, fn in sym.items():
            ll.add_symbol(name, ct.cast(getattr(lib, fn), ct.c_void_p).value)
        P._set_num_threads = lambda n: None
        P._get_num_threads = lib.vs_get_num_threads
        P._get_thread_id = lib.vs_get_thread_id
        P._set_parallel_chunksize = lib.vs_set_chunksize
        P._get_parallel_chunksize = lib.vs_get_chunksize
        P._threading_layer = 'workqueue'
        P._is_initialized = True

    if P._is_initialized:
        raise RuntimeError("numba threading layer already launched")
    P._launch_threads = launch
    launch()
    i64, u64, p = ct.c_int64, ct.c_uint64, ct.POINTER(ct.c_int64)
    lib.vs_reset.argtypes = [u64, ct.c_int, ct.c_int, ct.c_int, ct.c_int,
                             ct.c_int, i64, ct.c_int, i64]
    lib.vs_reset.restype = None
    lib.vs_set_replay.argtypes = [p, i64, p, i64]
    lib.vs_set_replay.restype = None
    lib.vs_set_skip.argtypes = [i64]
    lib.vs_set_skip.restype = None
    lib.vs_stats.argtypes = [p]
    lib.vs_stats.restype = None
    lib.vs_trace.restype = lib.vs_plan.restype = p
    _lib = lib
    return lib


STAT = ('regions', 'chunks', 'instructions', 'kernel_instructions', 'switches',
        'hash', 'ntrace', 'nplan', 'fast_forwards')


def configure(seed=0, threads=1, mode=NATIVE, policy=UNIFORM, ndiv=0, p16=6553,
              max_steps=200000, pct_depth=3, pct_len=4096, trace=None,
              plan=None, skip=0):
    _lib.vs_reset(seed & (2**63 - 1), threads, mode, policy, ndiv, p16,
                  max_steps, pct_depth, pct_len)
    _lib.vs_set_skip(skip)
    if trace is not None:
        a = (ct.c_int64 * max(1, len(trace)))(*trace)
        b = (ct.c_int64 * max(1, len(plan)))(*plan)
        _lib.vs_set_replay(a, len(trace), b, len(plan))


def stats():
    o = (ct.c_int64 * 16)()
    _lib.vs_stats(o)
    return dict(zip(STAT, list(o)[:len(STAT)]))


def recorded():
    s = stats()
    t, p = _lib.vs_trace(), _lib.vs_plan()
    return t[:s['ntrace']], p[:s['nplan']]


_cb = None


def set_yield(fn):
    """fn(more): called after each chunk that runs in NATIVE mode."""
    global _cb
    T = ct.CFUNCTYPE(None, ct.c_int64)
    _cb = T(fn) if fn else None
    _lib.vs_set_yield(ct.cast(_cb, ct.c_void_p) if fn else ct.c_void_p(0))
