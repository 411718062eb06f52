"""K04: ridge extraction does not depend on threads."""
import numpy as np
from .kbase import KProp, cplx, signal
from .k01 import F


def gen_ridge(r, big, tier):
    d = dict(na=r.randint(2, 12), n=r.randint(2, 14))
    if big:
        d = dict(na=r.randint(20, 120), n=r.randint(50, 300))
    d.update(kind=r.choice(['random', 'quantised', 'flat', 'ridges', 'ridges', 'sym']),
             zeros=r.choice([0, 0, 0, 1, 2]), n_ridges=r.choice([1, 1, 2, 3]),
             bw=r.choice([0, 1, 2, 4, 15]), penalty=r.choice([0, .5, 2, 20, 'big']),
             transform=r.choice(['cwt', 'stft']), prec=r.choice(['single', 'double']),
             get_params=r.random() < .6)
    return d


def make_ridge(p, rng):
    na, n = p['na'], p['n']
    kind = p['kind']
    if kind == 'random':
        T = np.abs(cplx(rng, (na, n), 'double'))
    elif kind == 'quantised':
        T = rng.integers(1, 3, (na, n)).astype(float)
    elif kind == 'flat':
        T = np.ones((na, n))
    elif kind == 'sym':                       # two mirrored ridges: exact ties
        h = rng.integers(1, 4, (na, n)).astype(float)
        T = np.maximum(h, h[::-1])
    else:
        k = np.arange(na)[:, None]
        t = np.arange(n)
        c1 = na * (.3 + .2 * np.sin(2 * np.pi * t / n))
        c2 = na * .8 + 0 * t
        T = np.exp(-(k - c1) ** 2 / 2) + .7 * np.exp(-(k - c2) ** 2 / 2) + 1e-3
    T = T.astype('complex128')
    if kind in ('random', 'ridges'):
        T = T * np.exp(2j * np.pi * rng.random((na, n)))
    if p['zeros'] == 1:
        T[:, rng.integers(0, n):] = 0
    elif p['zeros'] == 2:
        T[rng.random((na, n)) < .5] = 0
    T = T.astype('complex64' if p['prec'] == 'single' else 'complex128')
    scales = (2 ** (np.arange(na) / 8) * 2 if p['transform'] == 'cwt' else
              np.linspace(0, .5, na))
    from ssqueezepy import extract_ridges
    pen = 1e4 if p['penalty'] == 'big' else p['penalty']

    def call(par):
        o = extract_ridges(T.copy(), scales, penalty=pen, n_ridges=p['n_ridges'],
                           bw=p['bw'], transform=p['transform'],
                           get_params=p['get_params'], parallel=bool(par))
        return list(o) if isinstance(o, tuple) else [o]
    return F(call)


def gen_sig(r, big, tier):
    return dict(n=r.choice([64, 128]), n_ridges=r.choice([1, 2]), nv=r.choice([8, 16]),
                prec=r.choice(['single', 'double']), ssq=r.random() < .5)


def make_sig(p, rng):
    x = signal(rng, (p['n'],), p['prec'])
    import ssqueezepy as sp
    dt = 'float32' if p['prec'] == 'single' else 'float64'
    import os
    old = os.environ.get('SSQ_PARALLEL')
    os.environ['SSQ_PARALLEL'] = '0'         # one representation for both calls
    Tx, Wx, sf, sc = [np.array(o) for o in
                      sp.ssq_cwt(x, ('gmw', dict(dtype=dt)), scales=2 ** (1 + np.arange(4 * p['nv']) / p['nv']))]

    def call(par):
        return list(sp.extract_ridges(Tx if p['ssq'] else Wx, sc, penalty=2,
                                      n_ridges=p['n_ridges'], bw=4, get_params=True,
                                      parallel=bool(par)))
    return F(call)


class K04(KProp):
    ID = 'K04'
    OPS = dict(ridges=(6, gen_ridge, make_ridge), of_signal=(1, gen_sig, make_sig))
    REAL = ['ssqueezepy.extract_ridges and kernels', 'numba-generated code']
    P_STEP = .5


PROP = K04()
