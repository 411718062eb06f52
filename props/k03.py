"""K03: framing and the STFT do not depend on threads."""
import numpy as np
from sim import cmp
from .kbase import KProp, real, cplx, signal
from .k01 import F


def gen_buffer(r, big, tier):
    n = r.randint(1, 60) if not big else r.randint(500, 60000)
    seg = r.randint(1, max(1, min(n, 40 if not big else 300)))
    return dict(n=n, seg=seg, hop=r.randint(1, r.choice([1, 1, 3, seg + 2])),
                nb=r.choice([0, 0, 0, 1, 2, 3]), modulated=r.random() < .5,
                dt=r.choice(['f4', 'f8', 'c16']), env=r.random() < .5,
                strided=r.random() < .2)


def make_buffer(p, rng):
    n, seg = p['n'], min(p['seg'], p['n'])
    nb = min(p['nb'], 2 if n > 5000 else 3)
    sh = (nb, n) if nb else (n,)
    x = rng.standard_normal(sh).astype(p['dt'])
    X = x
    if p['strided']:
        X = np.repeat(x, 2, axis=-1)[..., ::2]
    hop = p['hop']
    if n > 5000:
        hop = max(hop, seg // 8)
    from ssqueezepy.utils import buffer

    def call(par):
        return buffer(X, seg, seg - hop, modulated=p['modulated'],
                      parallel=None if p['env'] else par)

    def expect():
        ns = (n - seg) // hop + 1
        idx = np.arange(seg)[:, None] + hop * np.arange(ns)
        o = x[..., idx]
        if p['modulated']:
            s20 = -(-seg // 2)
            s21 = seg - s20 if seg % 2 else s20
            # second half first: the window's center moves to the frame's start
            a = x[..., s21 + np.arange(s20)[:, None] + hop * np.arange(ns)]
            b = x[..., np.arange(s21)[:, None] + hop * np.arange(ns)]
            o = np.concatenate([a, b], axis=-2)
        return o
    return F(call, expect, cmp=cmp.diff_exact)


def gen_stft(r, big, tier):
    return dict(n=r.randint(20, 90) if not big else r.choice([500, 1001, 4096]),
                nb=r.choice([0, 0, 0, 2]), n_fft=r.choice([10, 13, 16, 31, 32] + [128] * big),
                win_len=r.choice([0, 9, 10]), hop=r.choice([1, 1, 2, 3, 5]),
                prec=r.choice(['single', 'double']), derivative=r.random() < .4,
                modulated=r.random() < .6, padtype=r.choice(['reflect', 'zero', 'wrap']),
                inverse=r.random() < .3)


def make_stft(p, rng):
    x = signal(rng, (p['nb'], p['n']) if p['nb'] else (p['n'],), p['prec'])
    import ssqueezepy as sp

    def call(par):
        kw = dict(n_fft=p['n_fft'], win_len=p['win_len'] or None, hop_len=p['hop'],
                  modulated=p['modulated'])
        o = sp.stft(x, **kw, padtype=p['padtype'], derivative=p['derivative'],
                    dtype='float32' if p['prec'] == 'single' else 'float64')
        o = list(o) if isinstance(o, tuple) else [o]
        if p['inverse'] and not p['nb']:
            o.append(sp.istft(o[0], N=p['n'], **kw))
        return o
    return F(call)


class K03(KProp):
    ID = 'K03'
    OPS = dict(buffer=(5, gen_buffer, make_buffer), stft=(3, gen_stft, make_stft))
    REAL = ['ssqueezepy.utils.stft_utils.buffer and kernels', 'ssqueezepy.stft, istft',
            'numba-generated code']


PROP = K03()
