"""A simulated GPU: stand-ins for torch (tensors are NumPy arrays) and cupy, whose
kernels - the package's own CUDA source - are compiled for this machine and run as
grids of threads, ordered and preempted by the simulator (see vsched.c).

As on a real GPU: tensors of different devices do not mix, NumPy cannot see device
memory, kernels get bare addresses (whatever the strides), new memory is garbage, and
writing outside of it goes undetected by the writer - but not by the simulator, which
surrounds it with guards."""
import ctypes as ct
import hashlib
import os
import re
import string
import subprocess
import sys
import types
import weakref
from builtins import max as bmax
import numpy as np
from sim import mem, parfor

STATS = dict(kernels=0, threads=0, compiled=0)
GUARD = 64
_bufs = weakref.WeakValueDictionary()


class OutOfBounds(BaseException):
    pass


class Unsimulated(Exception):
    """The stand-in lacks something: no verdict."""


def unsimulated(e):
    """Is this exception due to an imperfection of the stand-in? An error it models is
    one it raises itself."""
    import linecache
    import traceback
    if isinstance(e, Unsimulated):
        return True
    t = str(e)
    if isinstance(e, TypeError) and ('unexpected keyword' in t or 'positional arg' in t or
                                     'required keyword' in t):
        return True
    if isinstance(e, AttributeError) and any(
            q in t for q in ("'Tensor'", "'torch", "'cupy", "'device'", "'dtype'",
                             "'SimpleNamespace'", "'Kernel'", "'RawModule'", "'ndarray'")):
        return True
    fs = [f for f in traceback.extract_tb(e.__traceback__) if f.filename == __file__]
    if not fs:
        return False
    last = traceback.extract_tb(e.__traceback__)[-1]
    return not (last.filename == __file__ and
                linecache.getline(__file__, last.lineno).strip().startswith('raise'))


# ---- device memory -------------------------------------------------------------
class Buf:
    """Guarded memory on the device."""

    def __init__(self, nbytes):
        self.n = nbytes
        self.raw = np.empty(nbytes + 2 * GUARD + 64, np.uint8)
        o = -(self.raw.ctypes.data + GUARD) % 64
        self.lo = self.raw[o:o + GUARD]
        self.data = self.raw[o + GUARD:o + GUARD + nbytes]
        self.hi = self.raw[o + GUARD + nbytes:o + GUARD + nbytes + GUARD]
        self.lo[:] = self.hi[:] = 0xff         # NaN, whoever reads it
        self.data[:] = mem.BYTE or 0
        _bufs[id(self)] = self

    def __del__(self):
        self.raw[:] = 0xff                     # freed

    def intact(self):
        return bool((self.lo == 0xff).all() and (self.hi == 0xff).all())


class _Arr(np.ndarray):
    """NumPy view of device memory which keeps it alive."""
    def __array_finalize__(self, obj):
        self.buf = getattr(obj, 'buf', None)


def dev_array(shape, dtype):
    dtype = np.dtype(dtype)
    shape = tuple(int(s) for s in (shape if np.iterable(shape) else (shape,)))
    b = Buf(int(np.prod(shape)) * dtype.itemsize)
    a = b.data.view(dtype).reshape(shape).view(_Arr)
    a.buf = b
    return a


# ---- dtypes ----------------------------------------------------------------------
class dtype:
    def __init__(self, name, np_name, cat):
        self.name, self.np, self.cat = name, np.dtype(np_name), cat

    def __repr__(self):
        return 'torch.' + self.name
    is_complex = property(lambda s: s.cat == 3)
    is_floating_point = property(lambda s: s.cat == 2)
    itemsize = property(lambda s: s.np.itemsize)

    def __reduce__(self):
        return (_dt, (self.np,))


DT = {n: dtype(n, m, c) for n, m, c in [
    ('bool', 'bool', 0), ('uint8', 'uint8', 1), ('int8', 'int8', 1), ('int16', 'int16', 1),
    ('int32', 'int32', 1), ('int64', 'int64', 1), ('float16', 'float16', 2),
    ('float32', 'float32', 2), ('float64', 'float64', 2), ('complex64', 'complex64', 3),
    ('complex128', 'complex128', 3)]}
ALIAS = dict(float='float32', double='float64', half='float16', int='int32',
             long='int64', short='int16', cfloat='complex64', cdouble='complex128')


def _dt(d):
    """torch dtype of a NumPy one."""
    return DT[str(np.dtype(d))]


def _np(d):
    if d is None:
        return None
    if isinstance(d, dtype):
        return d.np
    if d in (float, int, bool, complex):
        return np.dtype({float: 'float32', int: 'int64', bool: 'bool',
                         complex: 'complex64'}[d])
    raise TypeError(f"dtype must be torch.dtype, not {d!r}")


class device:
    def __init__(self, d='cpu', index=None):
        d = d.type if isinstance(d, device) else str(d)
        self.type, _, i = d.partition(':')
        if self.type not in ('cuda', 'cpu'):
            raise RuntimeError(f"Expected one of cpu, cuda device type: {d}")
        self.index = int(i) if i else (0 if self.type == 'cuda' else None)

    def __repr__(self):
        return f"device(type='{self.type}'" + (
            f", index={self.index})" if self.index is not None else ')')

    def __str__(self):
        return self.type + (f':{self.index}' if self.index is not None else '')

    def __eq__(self, o):
        return isinstance(o, device) and self.type == o.type

    def __hash__(self):
        return hash(self.type)


CPU, CUDA = device('cpu'), device('cuda')


def _dev(d, default=CPU):
    return default if d is None else device(d) if not isinstance(d, device) else d


def put(a, dev):
    """Copies an array onto a device."""
    if dev.type == 'cuda':
        b = dev_array(a.shape, a.dtype)
        b[...] = a
        return b
    return np.array(a)


# ---- tensors ---------------------------------------------------------------------
class Tensor:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, a, dev):
        assert isinstance(a, np.ndarray)
        self._a, self._d = a, dev

    dtype = property(lambda s: _dt(s._a.dtype))
    device = property(lambda s: s._d)
    shape = property(lambda s: s._a.shape)
    ndim = property(lambda s: s._a.ndim)
    is_cuda = property(lambda s: s._d.type == 'cuda')
    requires_grad = False
    grad = None
    T = property(lambda s: Tensor(s._a.T, s._d))
    mT = property(lambda s: Tensor(np.swapaxes(s._a, -1, -2), s._d))
    real = property(lambda s: Tensor(s._a.real, s._d))
    imag = property(lambda s: Tensor(s._a.imag, s._d))
    data = property(lambda s: s)
    itemsize = property(lambda s: s._a.itemsize)
    nbytes = property(lambda s: s._a.nbytes)

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    def dim(self):
        return self.ndim

    def numel(self):
        return int(self._a.size)

    nelement = numel

    def stride(self, dim=None):
        s = tuple(x // self._a.itemsize for x in self._a.strides)
        return s if dim is None else s[dim]

    def data_ptr(self):
        return self._a.ctypes.data if self._a.size else 0

    def element_size(self):
        return self._a.itemsize

    def is_contiguous(self):
        return self._a.flags.c_contiguous

    def is_complex(self):
        return self._a.dtype.kind == 'c'

    def is_floating_point(self):
        return self._a.dtype.kind == 'f'

    def contiguous(self):
        return self if self.is_contiguous() else self.clone()

    def clone(self, **kw):
        return Tensor(put(np.ascontiguousarray(self._a).reshape(self.shape), self._d), self._d)

    def detach(self):
        return Tensor(self._a, self._d)

    def cpu(self):
        return self.to('cpu')

    def cuda(self, *a, **k):
        return self.to('cuda')

    def to(self, *args, dtype=None, device=None, copy=False, **kw):
        for a in args:
            if isinstance(a, Tensor):
                dtype, device = a.dtype, a.device
            elif isinstance(a, globals()['dtype']) or a in (float, int, bool, complex):
                dtype = a
            else:
                device = a
        d = _dev(device, self._d)
        n = _np(dtype) or self._a.dtype
        if d == self._d and n == self._a.dtype and not copy:
            return self
        a = self._a
        if a.dtype.kind == 'c' and n.kind != 'c':
            a = a.real
        return Tensor(put(a.astype(n), d), d)

    def type(self, d=None, **kw):
        if d is None:
            return 'torch.' + ('cuda.' if self.is_cuda else '') + 'Tensor'
        return self.to(DT[d.split('.')[-1]] if isinstance(d, str) else d)

    def numpy(self, force=False):
        if self.is_cuda and not force:
            raise TypeError("can't convert cuda:0 device type tensor to numpy. Use "
                            "Tensor.cpu() to copy the tensor to host memory first.")
        return np.array(self._a) if self.is_cuda else self._a

    def __array__(self, dtype=None, copy=None):
        return self.numpy() if dtype is None else self.numpy().astype(dtype)

    def tolist(self):
        return self._a.tolist()

    def item(self):
        return self._a.item()

    def new_zeros(self, *shape, dtype=None, device=None, **kw):
        return self._new(0, shape, dtype, device)

    def new_ones(self, *shape, dtype=None, device=None, **kw):
        return self._new(1, shape, dtype, device)

    def new_full(self, shape, fill_value, dtype=None, device=None, **kw):
        return self._new(fill_value, (shape,), dtype, device)

    def new_empty(self, *shape, dtype=None, device=None, **kw):
        return self._new(None, shape, dtype, device)

    def new_tensor(self, x, dtype=None, device=None):
        return tensor(x, dtype=dtype or self.dtype, device=device or self._d)

    def _new(self, fill, shape, dtype, device):
        if len(shape) == 1 and np.iterable(shape[0]):
            shape = shape[0]
        return _filled(shape, fill, dtype or self.dtype, device or self._d)

    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], globals()['dtype']):
            return Tensor(self._a.view(shape[0].np), self._d)
        return self._reshape(shape, True)

    def reshape(self, *shape):
        return self._reshape(shape, False)

    def _reshape(self, shape, strict):
        if len(shape) == 1 and np.iterable(shape[0]):
            shape = tuple(shape[0])
        b = self._a.reshape(shape)
        if self._a.size and not np.shares_memory(b, self._a):
            if strict:
                raise RuntimeError("view size is not compatible with input tensor's "
                                   "size and stride")
            return Tensor(put(b, self._d), self._d)
        return Tensor(b, self._d)

    def flatten(self, *a):
        return self.reshape(-1) if not a else NotImplemented

    ravel = flatten

    def permute(self, *d):
        d = d[0] if len(d) == 1 and np.iterable(d[0]) else d
        return Tensor(self._a.transpose(d), self._d)

    def transpose(self, a, b):
        return Tensor(np.swapaxes(self._a, a, b), self._d)

    swapaxes = transpose

    def squeeze(self, dim=None, axis=None):
        dim = axis if dim is None else dim
        if dim is None:
            return Tensor(self._a.squeeze(), self._d)
        return Tensor(self._a.squeeze(dim) if self.shape[dim] == 1 else self._a, self._d)

    def unsqueeze(self, dim):
        return Tensor(np.expand_dims(self._a, dim), self._d)

    def expand(self, *s):
        s = s[0] if len(s) == 1 and np.iterable(s[0]) else s
        s = tuple(self.shape[i - len(s)] if n == -1 else n for i, n in enumerate(s))
        return Tensor(np.broadcast_to(self._a, s), self._d)

    def repeat(self, *n):
        n = n[0] if len(n) == 1 and np.iterable(n[0]) else n
        return _wrap(np.tile(self._a, n), self._d)

    def copy_(self, o):
        self._a[...] = _raw(o)
        return self

    def fill_(self, v):
        self._a[...] = _raw(v)
        return self

    def zero_(self):
        return self.fill_(0)

    def __len__(self):
        if not self.ndim:
            raise TypeError("len() of a 0-d tensor")
        return len(self._a)

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def _idx(self, k):
        if isinstance(k, tuple):
            return tuple(self._idx(x) for x in k)
        if isinstance(k, slice):
            if k.step is not None and k.step < 0:
                raise ValueError("step must be greater than zero")
            return k
        return k._a if isinstance(k, Tensor) else k

    def __getitem__(self, k):
        k = self._idx(k)
        b = self._a[k]
        if not isinstance(b, np.ndarray):
            b = self._a[k + (Ellipsis,) if isinstance(k, tuple) else (k, Ellipsis)]
        if self._a.size and b.size and not np.shares_memory(b, self._a):
            b = put(b, self._d)
        return Tensor(b, self._d)

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.ndim:
            raise TypeError("can't assign a numpy.ndarray to a torch.FloatTensor")
        _same_device(self, v)
        self._a[self._idx(k)] = _raw(v)

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float(self._a.item())

    def __int__(self):
        return int(self._a.item())

    def __index__(self):
        if self._a.dtype.kind not in 'iub':
            raise TypeError("only integer tensors can be converted to an index")
        return int(self._a.item())

    def __complex__(self):
        return complex(self._a.item())

    def __repr__(self):
        return f"tensor({np.asarray(self._a).tolist()}, device='{self._d}', dtype={self.dtype})"

    def __hash__(self):
        return id(self)

    def __format__(self, s):
        return format(self._a.item(), s) if not self.ndim and s else repr(self)

    def __deepcopy__(self, memo):
        return self.clone()

    def max(self, dim=None, keepdim=False):
        return self._ext('max', 'argmax', dim, keepdim)

    def min(self, dim=None, keepdim=False):
        return self._ext('min', 'argmin', dim, keepdim)

    def _ext(self, f, g, dim, keepdim):
        if dim is None:
            return _wrap(getattr(np, f)(self._a), self._d)
        return MinMax(_wrap(getattr(np, f)(self._a, axis=dim, keepdims=keepdim), self._d),
                      _wrap(getattr(np, g)(self._a, axis=dim, keepdims=keepdim), self._d))

    def std(self, dim=None, unbiased=True, keepdim=False, correction=None, axis=None):
        dim = axis if dim is None else dim
        dd = int(unbiased) if correction is None else correction
        return _wrap(np.std(self._a, axis=dim, ddof=dd, keepdims=keepdim), self._d)

    def double(self):
        return self.to(DT['float64'])

    def float(self):
        return self.to(DT['float32'])

    def int(self):
        return self.to(DT['int32'])

    def long(self):
        return self.to(DT['int64'])

    def bool(self):
        return self.to(DT['bool'])

    def __getattr__(self, name):
        if name.startswith('__') or name in ('buf',):
            raise AttributeError(name)
        if name.endswith('_') and not name.endswith('__'):
            f = torch_function(name[:-1])

            def inplace(*a, **k):
                self._a[...] = f(self, *a, **k)._a
                return self
            return inplace
        f = torch_function(name)
        return lambda *a, **k: f(self, *a, **k)


class MinMax(tuple):
    def __new__(cls, v, i):
        return super().__new__(cls, (v, i))
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _raw(x):
    if isinstance(x, Tensor):
        return x._a
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return type(x)(_raw(y) for y in x)
    return x


def _cat(x):
    if isinstance(x, Tensor):
        return x.dtype.cat
    return 0 if isinstance(x, bool) else 1 if isinstance(x, int) else \
        2 if isinstance(x, float) else 3


def _wrap(v, dev):
    if isinstance(v, (np.ndarray, np.generic)):
        v = np.asarray(v)
        return Tensor(put(v, dev), dev)
    if isinstance(v, (list, tuple)):
        return type(v)(_wrap(x, dev) for x in v)
    return v


def _same_device(*xs):
    ds = {x._d.type for x in xs if isinstance(x, Tensor) and x.ndim}
    if len(ds) > 1:
        raise RuntimeError("Expected all tensors to be on the same device, but found "
                           "at least two devices, cuda:0 and cpu!")
    return next((x._d for x in xs if isinstance(x, Tensor) and x.ndim),
                next((x._d for x in xs if isinstance(x, Tensor)), CPU))


def _promoted(xs):
    """Operands, cast as torch does: zero-dimensional ones and numbers count only if
    of a higher category than the others."""
    ts = [x for x in xs if isinstance(x, Tensor)]
    best = None
    for pick in (lambda x: x.ndim > 0, lambda x: x.ndim == 0):
        for x in ts:
            if pick(x):
                d = x._a.dtype
                if best is None:
                    best = d
                elif pick is not None and (x.ndim > 0 or _dt(d).cat > _dt(best).cat):
                    if x.ndim == 0 and _dt(d).cat == 3:
                        best = np.dtype('complex128' if best == np.float64 else 'complex64')
                    else:
                        best = np.result_type(best, d) if _dt(d).cat == _dt(best).cat or \
                            3 not in (_dt(d).cat, _dt(best).cat) else np.dtype(
                            'complex128' if 'float64' in (str(d), str(best)) or
                            'complex128' in (str(d), str(best)) else 'complex64')
    out = []
    for x in xs:
        if not isinstance(x, Tensor):
            c = _cat(x)
            if c > _dt(best).cat:
                best = np.dtype({1: 'int64', 2: 'float32', 3: 'complex128' if
                                 best == np.float64 else 'complex64'}[c])
    for x in xs:
        out.append(x._a if isinstance(x, Tensor) else x)
    return [np.asarray(x).astype(best) for x in out]


def _binary(npf, rev=False, inplace=False, cmp=False, floaty=False):
    def f(self, o):
        if isinstance(o, np.generic):
            o = o.item()
        if isinstance(o, np.ndarray) and not isinstance(o, Tensor):
            if o.ndim or self.is_cuda:
                raise TypeError("unsupported operand type(s): 'Tensor' and 'numpy.ndarray'")
            o = o.item()
        if not isinstance(o, (Tensor, int, float, complex)):
            return NotImplemented
        dev = _same_device(self, o)
        a, b = _promoted([self, o])
        if floaty and a.dtype.kind in 'iub':
            a, b = a.astype('float32'), b.astype('float32')
        with np.errstate(all='ignore'):
            y = npf(b, a) if rev else npf(a, b)
        if inplace:
            if _dt(y.dtype).cat > self.dtype.cat:
                raise RuntimeError(f"result type {_dt(y.dtype)} can't be cast to the "
                                   f"desired output type {self.dtype}")
            self._a[...] = y
            return self
        return _wrap(y, dev)
    return f


for _n, _f in dict(add=np.add, sub=np.subtract, mul=np.multiply, truediv=np.true_divide,
                   pow=np.power, floordiv=np.floor_divide, mod=np.mod, matmul=np.matmul,
                   **{'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}
                   ).items():
    _fl = _n == 'truediv'
    setattr(Tensor, f'__{_n}__', _binary(_f, floaty=_fl))
    setattr(Tensor, f'__r{_n}__', _binary(_f, rev=True, floaty=_fl))
    setattr(Tensor, f'__i{_n}__', _binary(_f, inplace=True, floaty=_fl))
for _n, _f in dict(eq=np.equal, ne=np.not_equal, lt=np.less, le=np.less_equal,
                   gt=np.greater, ge=np.greater_equal).items():
    setattr(Tensor, f'__{_n}__', _binary(_f, cmp=True))
Tensor.__neg__ = lambda s: _wrap(-s._a, s._d)
Tensor.__pos__ = lambda s: s
Tensor.__abs__ = lambda s: _wrap(np.abs(s._a), s._d)
Tensor.__invert__ = lambda s: _wrap(~s._a, s._d)


# ---- torch functions ---------------------------------------------------------------
def _filled(shape, fill, dtype=None, device=None):
    d = _dev(device)
    n = _np(dtype) or np.dtype('float32')
    shape = (shape,) if np.isscalar(shape) else tuple(shape)
    a = dev_array(shape, n) if d.type == 'cuda' else np.empty(shape, n)
    if fill is not None:
        a[...] = _raw(fill)
    return Tensor(a, d)


def _shape(shape):
    return shape[0] if len(shape) == 1 and np.iterable(shape[0]) else shape


def zeros(*shape, dtype=None, device=None, size=None, **kw):
    return _filled(_shape(shape) if size is None else size, 0, dtype, device)


def ones(*shape, dtype=None, device=None, size=None, **kw):
    return _filled(_shape(shape) if size is None else size, 1, dtype, device)


def empty(*shape, dtype=None, device=None, size=None, **kw):
    return _filled(_shape(shape) if size is None else size, None, dtype, device)


def full(size, fill_value, dtype=None, device=None, **kw):
    v = _raw(fill_value)
    if dtype is None:
        dtype = _tdt(np.asarray(v))
    return _filled(size, v, dtype, device)


def _tdt(a):
    return _dt({'float64': 'float32', 'complex128': 'complex64'}.get(str(a.dtype), a.dtype))


def tensor(x, dtype=None, device=None, **kw):
    if isinstance(x, Tensor):
        return x.to(dtype=dtype, device=device, copy=True)
    a = np.array(_raw(x) if not isinstance(x, np.generic) else x)
    n = _np(dtype) or (a.dtype if isinstance(x, (np.ndarray, np.generic)) else _tdt(a).np)
    d = _dev(device)
    return Tensor(put(a.astype(n), d), d)


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor):
        return x.to(dtype=dtype, device=device)
    if isinstance(x, np.ndarray):
        if any(s < 0 for s in x.strides):
            raise ValueError("At least one stride in the given numpy array is negative, and "
                             "tensors with negative strides are not currently supported.")
        d, n = _dev(device), _np(dtype) or x.dtype
        if _dt(x.dtype) is None:
            raise TypeError("can't convert np.ndarray of type %s" % x.dtype)
        if d.type == 'cpu' and n == x.dtype:
            return Tensor(x, d)
        return Tensor(put(x.astype(n), d), d)
    return tensor(x, dtype=dtype, device=device)


def from_numpy(x):
    return as_tensor(x)


def arange(*a, dtype=None, device=None, **kw):
    v = np.arange(*[_raw(x) for x in a])
    return tensor(v.astype(_np(dtype) or _tdt(v).np), device=device)


def linspace(start, end, steps, dtype=None, device=None, **kw):
    v = np.linspace(_raw(start), _raw(end), steps)
    return tensor(v.astype(_np(dtype) or np.dtype('float32')), device=device)


def view_as_real(x):
    if not x.is_complex():
        raise RuntimeError("view_as_real is only supported for complex tensors")
    r = 'float32' if x._a.dtype == np.complex64 else 'float64'
    a = x._a
    b = np.lib.stride_tricks.as_strided(
        a.view(np.ndarray).real, a.shape + (2,), a.strides + (a.itemsize // 2,))
    b = b.view(_Arr)
    b.buf = getattr(a, 'buf', None)
    assert b.dtype == r
    return Tensor(b, x._d)


def view_as_complex(x):
    a = x._a
    if a.shape[-1] != 2 or a.strides[-1] != a.itemsize or any(
            s % (2 * a.itemsize) for s in a.strides[:-1]):
        raise RuntimeError("Tensor must have a last dimension of size 2 and stride 1")
    c = 'complex64' if a.dtype == np.float32 else 'complex128'
    buf = getattr(a, 'buf', None)
    b = np.ndarray.__new__(_Arr, a.shape[:-1], c, buffer=None) if not a.size else \
        _from_address(a, c)
    b.buf = buf
    return Tensor(b, x._d)


class _Iface:
    def __init__(self, a, c):
        self.keep = a
        self.__array_interface__ = dict(
            shape=a.shape[:-1], strides=a.strides[:-1], version=3,
            typestr=np.dtype(c).str, data=(a.ctypes.data, False))


def _from_address(a, c):
    return np.asarray(_Iface(a, c)).view(_Arr)


def complex_(real, imag):
    return _wrap(real._a + 1j * imag._a, _same_device(real, imag))


def vstack(ts):
    return _wrap(np.vstack([t._a for t in ts]), _same_device(*ts))


def _seq(f):
    def g(ts, dim=0, axis=None, **kw):
        return _wrap(f([t._a for t in ts], axis=dim if axis is None else axis),
                     _same_device(*ts))
    return g


def flip(x, *dims):
    dims = _shape(dims)
    return _wrap(np.flip(x._a, tuple(dims)), x._d)


def roll(x, shifts, dims=None):
    return _wrap(np.roll(x._a, shifts, dims), x._d)


def where(c, a=None, b=None):
    if a is None:
        return tuple(_wrap(i, c._d) for i in np.nonzero(c._a))
    dev = _same_device(*[x for x in (c, a, b) if isinstance(x, Tensor)])
    x, y = _promoted([a, b]) if any(isinstance(q, Tensor) for q in (a, b)) else (a, b)
    return _wrap(np.where(c._a, x, y), dev)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    _same_device(a, b)
    if a.dtype != b.dtype:
        raise RuntimeError("dtypes do not match")
    return bool(np.allclose(a._a, b._a, rtol, atol, equal_nan))


def atleast_1d(*xs):
    out = tuple(_view(np.atleast_1d(x._a), x) for x in xs)
    return out[0] if len(out) == 1 else out


def _view(b, x):
    return Tensor(b if np.shares_memory(b, x._a) else put(b, x._d), x._d)


def is_tensor(x):
    return isinstance(x, Tensor)


def clone(x, **kw):
    return x.clone()


def pad(x, pad_width, mode='constant', value=None):
    pw = [int(p) for p in pad_width]
    pairs = [(pw[i], pw[i + 1]) for i in range(0, len(pw), 2)]
    if mode == 'reflect' and x.ndim not in (2, 3) or mode == 'reflect' and len(pairs) != 1:
        raise NotImplementedError("Only 2D, 3D, 4D, 5D padding with non-constant padding "
                                  "are supported for now")
    if mode == 'reflect' and bmax(pw) >= x.shape[-1]:
        raise RuntimeError("Padding size should be less than the corresponding input "
                           "dimension")
    widths = [(0, 0)] * (x.ndim - len(pairs)) + pairs[::-1]
    m = {'constant': 'constant', 'reflect': 'reflect', 'replicate': 'edge',
         'circular': 'wrap'}[mode]
    kw = dict(constant_values=value or 0) if m == 'constant' else {}
    return _wrap(np.pad(x._a, widths, m, **kw), x._d)


NAMES = dict(arccos='arccos', mul='multiply', div='true_divide', sub='subtract', pow='power',
             fmod='fmod', clamp='clip', conj='conj', ge='greater_equal', gt='greater',
             le='less_equal', lt='less', eq='equal', ne='not_equal', isfinite='isfinite',
             cat='concatenate', abs='abs', sign='sign', log='log')


def torch_function(name):
    """The NumPy function of that name, as torch would have it."""
    own = {**globals(), 'complex': complex_}.get(name) if name in OWN else None
    if own is not None:
        return own
    npf = getattr(np, NAMES.get(name, name), None)
    if npf is None or not callable(npf):
        raise Unsimulated(f"torch.{name}")

    def f(*args, dim=None, axis=None, keepdim=None, dtype=None, out=None, **kw):
        ts = [x for x in args if isinstance(x, Tensor)]
        if any(isinstance(x, np.ndarray) and x.ndim for x in args) or not ts:
            raise TypeError(f"{name}(): argument must be Tensor, not numpy.ndarray")
        dev = _same_device(*ts)
        if len(ts) > 1 or isinstance(npf, np.ufunc) and npf.nin == 2:
            args = _promoted(args)
        else:
            args = [_raw(x) for x in args]
        args = [x.astype('float32') if isinstance(x, np.ndarray) and x.dtype.kind in 'iub' and
                name in FLOATY else x for x in args]
        if dim is not None or axis is not None:
            kw['axis'] = dim if dim is not None else axis
        if keepdim is not None:
            kw['keepdims'] = keepdim
        if dtype is not None:
            kw['dtype'] = _np(dtype)
        if 'min' in kw and name == 'clamp':
            kw['a_min'], kw['a_max'] = kw.pop('min'), kw.pop('max', None)
        with np.errstate(all='ignore'):
            y = npf(*args, **kw)
        if name in KEEP and isinstance(y, (np.ndarray, np.generic)):
            y = np.asarray(y).astype(args[0].dtype if args[0].dtype.kind in 'fc' else y.dtype)
        r = _wrap(y, dev)
        if out is not None:
            out._a[...] = r._a
            return out
        return r
    f.__name__ = name
    return f


KEEP = ('mean', 'sum', 'prod', 'cumsum', 'median')
FLOATY = ('exp', 'log', 'log2', 'sqrt', 'sin', 'cos', 'mean', 'true_divide')
OWN = ('zeros', 'ones', 'empty', 'full', 'tensor', 'as_tensor', 'from_numpy', 'arange',
       'linspace', 'view_as_real', 'view_as_complex', 'complex', 'vstack', 'flip', 'roll',
       'where', 'allclose', 'atleast_1d', 'is_tensor', 'clone', 'stack', 'cat', 'hstack',
       'concatenate', 'device', 'dtype', 'Tensor', 'max', 'min', 'std', 'zeros_like',
       'ones_like', 'empty_like', 'full_like', 'is_complex', 'angle', 'norm')
stack, cat = _seq(np.stack), _seq(np.concatenate)
concatenate = cat


def hstack(ts):
    return _wrap(np.hstack([t._a for t in ts]), _same_device(*ts))


def zeros_like(x, dtype=None, device=None, **kw):
    return x.new_zeros(x.shape, dtype=dtype, device=device)


def ones_like(x, dtype=None, device=None, **kw):
    return x.new_ones(x.shape, dtype=dtype, device=device)


def empty_like(x, dtype=None, device=None, **kw):
    return x.new_empty(x.shape, dtype=dtype, device=device)


def full_like(x, fill_value, dtype=None, device=None, **kw):
    return x.new_full(x.shape, fill_value, dtype=dtype, device=device)


def max(x, *a, **k):
    return x.max(*a, **k) if not (a and isinstance(a[0], Tensor)) else \
        torch_function('maximum')(x, *a)


def min(x, *a, **k):
    return x.min(*a, **k) if not (a and isinstance(a[0], Tensor)) else \
        torch_function('minimum')(x, *a)


def std(x, *a, **k):
    return x.std(*a, **k)


def is_complex(x):
    return x.is_complex()


def norm(x, *a, dim=None, axis=None, keepdim=False, **k):
    return _wrap(np.linalg.norm(x._a, axis=dim if dim is not None else axis,
                                keepdims=keepdim), x._d)


def _fft(name):
    def f(x, n=None, dim=-1, axis=None, norm=None):
        import scipy.fft
        if not isinstance(x, Tensor):
            raise TypeError(f"fft_{name}(): argument 'input' must be Tensor")
        a = np.array(x._a)
        if a.dtype.kind in 'iub':
            a = a.astype('float32')
        return _wrap(getattr(scipy.fft, name)(a, n=n, axis=dim if axis is None else axis,
                                              norm=norm), x._d)
    return f


def _shift(name):
    def f(x, dim=None, axis=None):
        return _wrap(getattr(np.fft, name)(x._a, axes=dim if dim is not None else axis), x._d)
    return f


# ---- cupy --------------------------------------------------------------------------
class ndarray:
    """cupy's."""

    def __init__(self, a):
        self._a = a
        self.data = types.SimpleNamespace(ptr=a.ctypes.data)

    dtype = property(lambda s: s._a.dtype)
    shape = property(lambda s: s._a.shape)
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)

    def get(self):
        return np.array(self._a)


def cp_asarray(x, dtype=None, **kw):
    if isinstance(x, ndarray):
        return x if dtype is None else ndarray(put(x._a.astype(dtype), CUDA))
    if isinstance(x, Tensor):
        x = x._a
    return ndarray(put(np.asarray(x, dtype=dtype), CUDA))


def memoize(for_each_device=False):
    def wrap(f):
        memo = {}

        def g(*a, **k):
            key = (a, tuple(sorted(k.items())))
            if key not in memo:
                memo[key] = f(*a, **k)
            return memo[key]
        g.__wrapped__ = f
        g.__name__ = f.__name__
        return g
    return wrap


class RawModule:
    def __init__(self, code=None, **kw):
        self.code = code

    def get_function(self, name):
        return Kernel(self.code, name)


class Kernel:
    def __init__(self, code, name, **kw):
        self.name = name
        self.fn = compile_kernel(code, name)

    def __call__(self, grid, block, args, stream=None, shared_mem=0, **kw):
        grid, block = [tuple(int(v) for v in g) + (1,) * (3 - len(g)) for g in (grid, block)]
        if not all(v >= 1 for v in grid + block) or int(np.prod(block)) > 1024:
            raise RuntimeError("CUDA_ERROR_INVALID_VALUE: invalid argument")
        keep, ptrs = [], (ct.c_void_p * (len(args) + 1))()
        for i, a in enumerate(args):
            if isinstance(a, ndarray):
                v = ct.c_uint64(a.data.ptr)
            elif isinstance(a, (bool, np.bool_)):
                v = ct.c_uint64(int(a))
            elif isinstance(a, int):
                v = ct.c_int64(a)
            elif isinstance(a, float):
                v = ct.c_double(a)
            elif isinstance(a, np.generic):
                v = ct.create_string_buffer(a.tobytes() + bytes(16), 24)
            else:
                raise TypeError(f"Unsupported type {type(a)}")
            keep.append(v)
            ptrs[i] = ct.cast(ct.pointer(v), ct.c_void_p)
        n = int(np.prod(grid)) * int(np.prod(block))
        STATS['kernels'] += 1
        STATS['threads'] += n
        run_grid(self.fn, self.name, n, grid, block, ptrs, len(args))
        for b in list(_bufs.values()):
            if not b.intact():
                raise OutOfBounds(f"kernel {self.name} wrote outside of {b.n} bytes of "
                                  f"device memory")


def run_grid(fn, name, n, grid, block, ptrs, nargs):
    want = fn.sim_nargs()
    if want != nargs:
        raise RuntimeError(f"kernel {name} takes {want} arguments, {nargs} given")
    launch = (ct.c_int64 * 8)(*grid, *block)
    box = (ct.c_void_p * 2)(ct.cast(launch, ct.c_void_p), ct.cast(ptrs, ct.c_void_p))
    idx = (ct.c_int64 * n)(*range(n))
    args = (ct.c_void_p * 1)(ct.cast(idx, ct.c_void_p))
    dims = (ct.c_int64 * 3)(n, 1, 1)
    steps = (ct.c_int64 * 3)(8, 0, 0)
    parfor._lib.vs_parallel_for(
        ct.cast(fn.sim_thread, ct.c_void_p), ct.cast(args, ct.c_void_p), dims, steps,
        ct.cast(box, ct.c_void_p), ct.c_int64(0), ct.c_int64(1), ct.c_int64(n))


HEAD = r'''
typedef unsigned long size_t;
typedef unsigned int uint;
struct dim3 { unsigned x, y, z; };
#define __global__
#define __device__ static inline
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __restrict
extern "C" {
double fabs(double); float fabsf(float); double round(double); float roundf(float);
double log2(double); float log2f(float); double log(double); float logf(float);
double exp(double); float expf(float); double sqrt(double); float sqrtf(float);
double hypot(double, double); float hypotf(float, float); double floor(double);
float floorf(float); double ceil(double); float ceilf(float); double rint(double);
float rintf(float); double fmin(double, double); float fminf(float, float);
double fmax(double, double); float fmaxf(float, float); double pow(double, double);
float powf(float, float); double trunc(double); float truncf(float); double cos(double);
double sin(double); float cosf(float); float sinf(float); double nearbyint(double);
}
struct Dev {
static float abs(float x) { return __builtin_fabsf(x); }
static double abs(double x) { return __builtin_fabs(x); }
static int abs(int x) { return x < 0 ? -x : x; }
static bool isinf(double x) { return __builtin_isinf(x); }
static bool isnan(double x) { return __builtin_isnan(x); }
static bool isfinite(double x) { return __builtin_isfinite(x); }
static bool isinf(float x) { return __builtin_isinf(x); }
static bool isnan(float x) { return __builtin_isnan(x); }
static bool isfinite(float x) { return __builtin_isfinite(x); }
template<class T> static T min(T a, T b) { return b < a ? b : a; }
template<class T> static T max(T a, T b) { return a < b ? b : a; }
static double norm(int d, const double *p) {
  if (d == 2) return hypot(p[0], p[1]);
  double s = 0; for (int i = 0; i < d; ++i) s += p[i] * p[i]; return sqrt(s); }
static float normf(int d, const float *p) {
  if (d == 2) return hypotf(p[0], p[1]);
  float s = 0; for (int i = 0; i < d; ++i) s += p[i] * p[i]; return sqrtf(s); }
template<class T> static T atomicAdd(T *p, T v) {
  T old, neu; do { old = *(volatile T *)p; neu = old + v; }
  while (!__atomic_compare_exchange(p, &old, &neu, 0, 5, 5)); return old; }
static long lround(double x) { return (long)round(x); }
/* conversions to int saturate */
struct Sat {};
static int to_int(double x) {
  if (x != x) return (int)0x80000000;
  return x >= 2147483647. ? 2147483647 : x <= -2147483648. ? -2147483647 - 1 : (int)x; }
static int __double2int_rn(double x) { return to_int(rint(x)); }
static int __float2int_rn(float x) { return x != x ? 0 : to_int(rint(x)); }
};
inline int operator->*(Dev::Sat, double x) { return Dev::to_int(x); }
inline int operator->*(Dev::Sat, float x) { return x != x ? 0 : Dev::to_int(x); }
inline int operator->*(Dev::Sat, int x) { return x; }
inline int operator->*(Dev::Sat, unsigned x) { return (int)x; }
inline int operator->*(Dev::Sat, long x) { return (int)x; }
inline int operator->*(Dev::Sat, unsigned long x) { return (int)x; }
inline int operator->*(Dev::Sat, bool x) { return (int)x; }
struct Grid : Dev {
  dim3 blockIdx, threadIdx, blockDim, gridDim;
'''
TAIL = r'''
};
template<class T> struct arg { typedef T type; };
template<class T> struct arg<T &> { typedef T type; };
template<class T> struct arg<const T> { typedef T type; };
template<class K, class... A> struct call_ {
  template<int... I> struct seq {};
  static constexpr int n = sizeof...(A);
  template<int N, int... I> struct mk : mk<N - 1, N - 1, I...> {};
  template<int... I> struct mk<0, I...> { typedef seq<I...> type; };
  template<int... I> static void go(K *k, void (K::*f)(A...), void **p, seq<I...>) {
    (k->*f)(*(typename arg<A>::type *)p[I]...); }
};
template<class K, class... A> void call(K *k, void (K::*f)(A...), void **p) {
  call_<K, A...>::go(k, f, p, typename call_<K, A...>::template mk<sizeof...(A)>::type()); }
template<class K, class... A> int count(void (K::*)(A...)) { return sizeof...(A); }
extern "C" int sim_nargs() { return count(&Grid::KERNEL); }
extern "C" void sim_thread(char **args, long *dims, long *steps, void *data) {
  long t = *(long *)args[0];
  long *L = ((long **)data)[0];
  Grid g;
  g.gridDim = dim3{(unsigned)L[0], (unsigned)L[1], (unsigned)L[2]};
  g.blockDim = dim3{(unsigned)L[3], (unsigned)L[4], (unsigned)L[5]};
  long nb = L[3] * L[4] * L[5], b = t / nb, q = t % nb;
  g.threadIdx = dim3{(unsigned)(q % L[3]), (unsigned)(q / L[3] % L[4]), (unsigned)(q / L[3] / L[4])};
  g.blockIdx = dim3{(unsigned)(b % L[0]), (unsigned)(b / L[0] % L[1]), (unsigned)(b / L[0] / L[1])};
  call(&g, &Grid::KERNEL, (void **)((long **)data)[1]);
}
'''


def compile_kernel(code, name):
    code = re.sub(r'extern\s+"C"', '', code)
    if '__shared__' in code or '__syncthreads' in code:
        raise Unsimulated("shared memory")
    code = re.sub(r'\(\s*int\s*\)|static_cast\s*<\s*int\s*>|\bint\s*(?=\()', ' Sat()->*', code)
    src = HEAD + code + TAIL.replace('KERNEL', name)
    d = os.path.join(os.environ['SSQSIM_WORK'], 'simgpu')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(src.encode()).hexdigest()[:16]
    so = os.path.join(d, f'simgpu.{h}.so')
    if not os.path.exists(so):
        STATS['compiled'] += 1
        tmp = f'{so}.{os.getpid()}'
        with open(tmp + '.cc', 'w') as f:
            f.write(src)
        r = subprocess.run(['g++', '-O1', '-w', '-fno-exceptions', '-ffp-contract=off',
                            '-fno-builtin', '-fPIC', '-shared', '-nostdlib', '-o', tmp, tmp + '.cc',
                            '-lm'], capture_output=True, text=True)
        os.unlink(tmp + '.cc')
        if r.returncode:
            raise Unsimulated(f"kernel {name} does not compile: {r.stderr[:2000]}")
        os.replace(tmp, so)
    lib = ct.CDLL(so)
    return lib


# ---- installation ------------------------------------------------------------------
class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return torch_function(name)


class _Cupy(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name, None)
        if isinstance(v, (type, float)) or v is None and name in ('newaxis',):
            return v
        raise Unsimulated(f"cupy.{name}")


def install():
    t = _Module('torch')
    t.__version__ = '2.3.0+sim'
    for n, d in DT.items():
        setattr(t, n, d)
    for a, n in ALIAS.items():
        setattr(t, a, DT[n])
    for n in OWN:
        if n in globals():
            setattr(t, n, globals()[n])
    t.complex = complex_
    t.pi, t.inf, t.nan, t.e = np.pi, np.inf, np.nan, np.e
    t.newaxis = None
    t.Size = tuple
    F = types.ModuleType('torch.fft')
    for n in ('fft', 'ifft', 'rfft', 'irfft'):
        setattr(F, n, _fft(n))
    for n in ('fftshift', 'ifftshift'):
        setattr(F, n, _shift(n))
    N = types.ModuleType('torch.nn')
    NF = types.ModuleType('torch.nn.functional')
    NF.pad = pad
    N.functional = NF
    C = types.ModuleType('torch.cuda')
    C.current_stream = lambda *a: types.SimpleNamespace(cuda_stream=0, synchronize=lambda: None)
    C.is_available = lambda: True
    C.synchronize = lambda *a: None
    C.empty_cache = lambda: None
    C.current_device = lambda: 0
    C.device_count = lambda: 1
    t.fft, t.nn, t.cuda = F, N, C
    t.autograd = types.SimpleNamespace(Variable=Tensor)

    class no_grad:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def __call__(self, f):
            return f
    t.no_grad = t.inference_mode = no_grad
    c = _Cupy('cupy')
    c.__version__ = '13.0.0+sim'
    c.ndarray, c.memoize, c.RawModule, c.RawKernel = ndarray, memoize, RawModule, Kernel
    c.asarray = c.array = cp_asarray
    c.cuda = types.SimpleNamespace(
        Stream=types.SimpleNamespace(null=types.SimpleNamespace(ptr=0)),
        get_current_stream=lambda: types.SimpleNamespace(ptr=0))
    sys.modules.update({'torch': t, 'torch.fft': F, 'torch.nn': N, 'torch.nn.functional': NF,
                        'torch.cuda': C, 'cupy': c})
    return t, c
