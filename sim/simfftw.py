"""Deterministic stand-in for pyfftw.

Transforms are computed with numpy.fft. The planner keeps "wisdom" as a set of
plan keys, grown by planning and by importing, exported as text whose
completeness can be checked. Like FFTW's planner, planning overwrites both
arrays, unless wisdom for the plan is already there."""
import sys
import types
import zlib
import numpy as np
from sim import mem

_wisdom = {'d': set(), 's': set(), 'l': set()}
STATS = {'plans': 0, 'planned_anew': 0, 'executions': 0, 'imports': 0,
         'exports': 0}
BAD_IMPORTS = []          # digests of damaged wisdom handed to import_wisdom
HEAD = {'d': b'(simfftw double', 's': b'(simfftw single', 'l': b'(simfftw long'}


def encode(kind, keys):
    body = b''.join(b'\n  (' + k.encode() + b')' for k in sorted(keys))
    return HEAD[kind] + b' #%08x' % zlib.crc32(body) + body + b'\n)\n'


def decode(kind, b):
    """set of keys, or None if `b` isn't complete, undamaged wisdom."""
    try:
        if not b.startswith(HEAD[kind]) or not b.endswith(b'\n)\n'):
            return None
        head, _, rest = b.partition(b'\n')
        crc = int(head.rsplit(b'#', 1)[1], 16)
        body = b'\n' + rest[:-len(b'\n)\n')] if rest != b')\n' else b''
        if zlib.crc32(body) != crc:
            return None
        return {x.strip()[1:-1].decode() for x in body.split(b'\n') if x.strip()}
    except Exception:
        return None


def export_wisdom():
    STATS['exports'] += 1
    return tuple(encode(k, _wisdom[k]) for k in 'dsl')


def import_wisdom(w):
    STATS['imports'] += 1
    ok = []
    for k, b in zip('dsl', w):
        if not isinstance(b, bytes):
            raise TypeError("wisdom must be bytes")
        keys = decode(k, b)
        ok.append(keys is not None)
        if keys is None and b:
            import hashlib
            BAD_IMPORTS.append(hashlib.sha1(b).hexdigest())
        if keys:
            _wisdom[k] |= keys
    return tuple(ok)


def forget_wisdom():
    for s in _wisdom.values():
        s.clear()


def byte_align(a, n=None, dtype=None):
    out = empty_aligned(a.shape, dtype or a.dtype)
    out[:] = a
    return out


def empty_aligned(shape, dtype='float64', order='C', n=None):
    dtype = np.dtype(dtype)
    shape = (shape,) if np.isscalar(shape) else tuple(shape)
    size = int(np.prod(shape)) * dtype.itemsize
    buf = np.empty(size + 64, np.uint8)
    off = (-buf.ctypes.data) % 64
    a = buf[off:off + size].view(dtype).reshape(shape, order=order)
    # uninitialised memory is garbage, which the simulator chooses
    a.reshape(-1, order='A').view(np.uint8)[:] = mem.BYTE
    return a


def zeros_aligned(shape, dtype='float64', order='C', n=None):
    a = empty_aligned(shape, dtype, order)
    a[...] = 0
    return a


_SCHEMES = {('complex128', 'complex128'): 'd', ('complex64', 'complex64'): 's',
            ('float64', 'complex128'): 'd', ('float32', 'complex64'): 's',
            ('complex128', 'float64'): 'd', ('complex64', 'float32'): 's'}


class FFTW:
    def __init__(self, input_array, output_array, axes=(-1,),
                 direction='FFTW_FORWARD', flags=('FFTW_MEASURE',), threads=1,
                 planning_timelimit=None, normalise_idft=True, ortho=False):
        i, o = input_array, output_array
        sch = (str(i.dtype), str(o.dtype))
        if sch not in _SCHEMES:
            raise ValueError(f"Invalid scheme: {sch}")
        if direction not in ('FFTW_FORWARD', 'FFTW_BACKWARD'):
            raise ValueError("Invalid FFT direction")
        for f in flags:
            if f not in ('FFTW_ESTIMATE', 'FFTW_MEASURE', 'FFTW_PATIENT',
                         'FFTW_EXHAUSTIVE', 'FFTW_UNALIGNED',
                         'FFTW_DESTROY_INPUT', 'FFTW_WISDOM_ONLY'):
                raise ValueError(f"Invalid flag: {f}")
        if planning_timelimit is not None:
            planning_timelimit = float(planning_timelimit)
        if not isinstance(threads, (int, np.integer)) or threads < 1:
            raise ValueError("Invalid threads")
        axes = tuple(int(a) % i.ndim for a in axes)
        real_in, real_out = sch[0][0] == 'f', sch[1][0] == 'f'
        if direction == 'FFTW_FORWARD' and real_out or \
                direction == 'FFTW_BACKWARD' and real_in:
            raise ValueError("Invalid direction for the scheme")
        exp = list(i.shape)
        if real_in:
            exp[axes[-1]] = i.shape[axes[-1]] // 2 + 1
        if real_out:
            n = o.shape[axes[-1]]
            exp[axes[-1]] = n
            if n // 2 + 1 != i.shape[axes[-1]]:
                raise ValueError("Invalid output shape")
        if tuple(exp) != o.shape:
            raise ValueError("Invalid shapes")
        self._i, self._o, self._axes = i, o, axes
        self._dir, self._ni, self._ortho = direction, normalise_idft, ortho
        self._flags = tuple(flags)
        self._real_in, self._real_out = real_in, real_out
        key = '%s %s %s %s %s %s' % (
            'r2c' if real_in else 'c2r' if real_out else 'c2c', direction[5],
            'x'.join(map(str, i.shape)), 'x'.join(map(str, o.shape)),
            ','.join(map(str, axes)), '+'.join(sorted(flags)))
        STATS['plans'] += 1
        w = _wisdom[_SCHEMES[sch]]
        if key not in w:
            STATS['planned_anew'] += 1
            w.add(key)
            if 'FFTW_ESTIMATE' not in flags:     # planning trashes the arrays
                for a in (i, o):
                    a[...] = np.arange(a.size).reshape(a.shape) % 7 - 3

    input_array = property(lambda s: s._i)
    output_array = property(lambda s: s._o)
    axes = property(lambda s: s._axes)
    direction = property(lambda s: s._dir)
    flags = property(lambda s: s._flags)
    input_shape = property(lambda s: s._i.shape)
    output_shape = property(lambda s: s._o.shape)
    input_dtype = property(lambda s: s._i.dtype)
    output_dtype = property(lambda s: s._o.dtype)
    N = property(lambda s: int(np.prod([
        (s._o if s._real_out else s._i).shape[a] for a in s._axes])))

    def get_input_array(self):
        return self._i

    def get_output_array(self):
        return self._o

    def update_arrays(self, i, o):
        self._set(i, o)

    def _set(self, i, o):
        for new, old in ((i, self._i), (o, self._o)):
            if new.shape != old.shape or new.dtype != old.dtype:
                raise ValueError("Invalid shape or dtype")
        self._i, self._o = i, o

    def execute(self):
        STATS['executions'] += 1
        x, ax = self._i, self._axes
        if self._dir == 'FFTW_FORWARD':
            y = (np.fft.rfftn if self._real_in else np.fft.fftn)(x, axes=ax)
        elif self._real_out:
            y = np.fft.irfftn(x, s=[self._o.shape[a] for a in ax], axes=ax) * self.N
        else:
            y = np.fft.ifftn(x, axes=ax) * self.N
        self._o[...] = y
        if self._real_out:          # FFTW may use the input as work space
            x[...] = np.arange(x.size).reshape(x.shape) % 5 - 2

    def __call__(self, input_array=None, output_array=None, normalise_idft=None,
                 ortho=None):
        if input_array is not None:
            x = np.asarray(input_array)
            if x.shape != self._i.shape:
                raise ValueError("Invalid input shape")
            if output_array is None and x.dtype == self._i.dtype and \
                    x.flags.c_contiguous and not x.ctypes.data % 64:
                self._set(x, self._o)
            else:
                self._i[...] = x
        if output_array is not None:
            self._set(self._i, output_array)
        self.execute()
        ni = self._ni if normalise_idft is None else normalise_idft
        ortho = self._ortho if ortho is None else ortho
        if ortho:
            self._o[...] *= 1 / np.sqrt(self.N)
        elif self._dir == 'FFTW_BACKWARD' and ni:
            self._o[...] *= 1 / self.N
        return self._o


def install():
    m = types.ModuleType('pyfftw')
    for n in ('FFTW', 'export_wisdom', 'import_wisdom', 'forget_wisdom',
              'empty_aligned', 'zeros_aligned', 'byte_align'):
        setattr(m, n, globals()[n])
    m.simd_alignment = 64
    m.__version__ = '0.15.1+sim'
    m.is_byte_aligned = lambda a, n=64: a.ctypes.data % n == 0
    m.config = types.SimpleNamespace(NUM_THREADS=1, PLANNER_EFFORT='FFTW_MEASURE')
    cache = types.SimpleNamespace(
        enable=lambda: None, disable=lambda: None,
        set_keepalive_time=lambda s: None, is_enabled=lambda: True)
    m.interfaces = types.SimpleNamespace(cache=cache)
    m.builders = types.SimpleNamespace()
    m._sim = sys.modules[__name__]
    sys.modules['pyfftw'] = m
    return m
