"""K06: with a GPU, what is computed is what is computed without one.

The package's CUDA kernels run as grids of threads on a simulated GPU (sim/simgpu.py),
in seeded orders and with seeded preemptions; torch and cupy are stand-ins."""
import os
import numpy as np
from sim import cmp, mem
from sim.engine import Prop
from .kbase import KProp, cplx, real, signal
from .k01 import F, gen_plane, plane, fill, odd, expect, mtol, binnable
from .k05 import pick, wavelet

SKIP = 'unsimulated'
COUNTS = dict(unsimulated=0, cpu_raised=0, both_raised=0)


def gpu(on):
    os.environ['SSQ_GPU'] = '1' if on else '0'


def up(x, lay=None):
    """Array -> tensor of the GPU, possibly a view of a larger one."""
    import torch
    if x is None:
        return None
    if lay == 'cols':                   # every other column
        b = np.full(x.shape[:-1] + (2 * x.shape[-1],), 7, x.dtype)
        b[..., ::2] = x
        return torch.as_tensor(b, device='cuda')[..., ::2]
    if lay == 'T' and x.ndim == 2:
        return torch.as_tensor(np.ascontiguousarray(x.T), device='cuda').T
    if lay == 'rows':
        b = np.full((x.shape[0] + 3,) + x.shape[1:], 7, x.dtype)
        b[2:-1] = x
        return torch.as_tensor(b, device='cuda')[2:-1]
    if lay == 'crop':
        b = np.full(x.shape[:-1] + (x.shape[-1] + 5,), 7, x.dtype)
        b[..., 3:-2] = x
        return torch.as_tensor(b, device='cuda')[..., 3:-2]
    return torch.as_tensor(np.ascontiguousarray(x), device='cuda')


class NotOnGPU(Exception):
    pass


def down(x, need=True):
    """Results -> arrays."""
    import torch
    if isinstance(x, (list, tuple)):
        return [down(y, need) for y in x]
    if isinstance(x, torch.Tensor):
        if not x.is_cuda:
            raise NotOnGPU("a tensor on the CPU is returned")
        return x.cpu().numpy()
    return x


def on_gpu(f):
    """f() with the GPU, judging exceptions."""
    from sim import simgpu
    gpu(True)
    try:
        return f()
    except Exception as e:
        if simgpu.unsimulated(e):
            if os.environ.get('SSQSIM_DEBUG'):
                import traceback
                traceback.print_exc()
            COUNTS['unsimulated'] += 1
            return SKIP
        if os.environ.get('SSQSIM_DEBUG'):
            import traceback
            traceback.print_exc()
        return f"raised {type(e).__name__}: {e}"[:300]
    except simgpu.OutOfBounds as e:
        return f"OutOfBounds: {e}"
    finally:
        gpu(False)


class G(F):
    """cpu() against gpu(); `how` compares their (nested) values."""

    def __init__(self, p, cpu, gpu_, how=None):
        self.cpu, self.gpu, self.how = cpu, gpu_, how
        self.single = p['prec'] == 'single'

    def __call__(self, par):
        if par:
            return on_gpu(self.gpu)
        gpu(False)
        return self.cpu()

    def cmp(self, ref, out):
        if isinstance(out, str) and out == SKIP:
            return None
        if isinstance(ref, str):
            COUNTS['both_raised' if isinstance(out, str) else 'cpu_raised'] += 1
            return None
        if isinstance(out, str):
            return out
        return (self.how or (lambda a, b: diff(a, b, self.single)))(ref, out)


def diff(ref, out, single=False, f32=2e-4, f64=1e-8):
    """Equal up to rounding, relative to a scale of at least 1 (that of the wavelets
    and signals)."""
    fr, fo = cmp.flat(ref), cmp.flat(out)
    if len(fr) != len(fo):
        return f"{len(fo)} values returned, expected {len(fr)}"
    for (n, x), (_, y) in zip(fr, fo):
        t = f32 if single or isinstance(x, np.ndarray) and x.dtype in (
            np.float32, np.complex64) else f64
        if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' and x.size:
            ok = np.isfinite(x)
            sc = np.abs(x[ok]).max() if ok.any() else 1
            t *= max(1, 1 / sc) if sc else 1e300
        d = cmp.diff1(x, y, t)
        if d:
            return f"{n}: {d}"
    return None


def unchanged(pairs):
    """Inputs are as they were."""
    for name, t, a in pairs:
        if t is not None and not np.array_equal(t.cpu().numpy(), a, equal_nan=True):
            raise NotOnGPU(f"{name} was modified")


LAYS = [None, None, None, 'cols', 'T', 'rows', 'crop']


# ---- kernels -------------------------------------------------------------------
def gen_k(r, big, tier):
    p = gen_plane(r, False, tier)
    p.update(what=r.choice(['fast', 'fast', 'onfly', 'onfly', 'ssqueeze']),
             sfs=r.random() < .4, lay=r.choice(LAYS), one=r.random() < .2,
             arr=r.choice(['np', 'gpu']), squeezing=r.choice(['sum', 'sum', 'abs', 'lebesgue']),
             nb=r.choice([0, 0, 2]), usew=r.random() < .5)
    p['prefill'] = False
    if big:
        p['na'], p['n'] = r.randint(10, 40), r.randint(40, 300)
    elif r.random() < .1:               # several blocks of columns
        p['na'], p['n'] = r.randint(2, 6), r.choice([
            1023, 1024, 1025, 2048, r.randint(1026, 2600)])
        p['na'] = 8 if p['scale'] == 'logpw' else p['na']
    return p


def make_k(p, rng):
    if p['what'] == 'ssqueeze':
        return make_sq(p, rng)
    f, b, w, Wx, const = plane(p, rng)
    gamma = .1
    Sfs = None
    from ssqueezepy import algos
    kw = dict(logscale=p['scale'] != 'lin', flipud=p['flipud'])
    if p['what'] == 'onfly':
        nan, huge = odd(p, rng, b, w)
        inf = rng.random(Wx.shape) < .2
        w[nan], w[huge], w[inf] = np.nan, 1e30, np.inf
        w = w.astype(Wx.real.dtype)
        keep = ~inf & ~nan
        cpu = lambda: algos.indexed_sum_onfly(Wx, w, f, const, parallel=False, **kw)
    else:
        if p['sfs'] and p['scale'] == 'lin':
            Sfs = np.linspace(0, 9, p['na']).astype(Wx.real.dtype)
            w = (2j * np.pi * (Sfs[:, None].astype('float64') - w) * Wx).astype(Wx.dtype)
        else:
            w = (2j * np.pi * w * Wx).astype(Wx.dtype)
        nan, huge = odd(p, rng, b, w)
        w[nan], w[huge] = np.nan, 1e30j * Wx[huge]
        keep = (np.abs(Wx) > gamma) & ~nan
        cpu = lambda: algos.ssqueeze_fast(Wx, w, f, const, gamma=gamma, Sfs=Sfs,
                                          parallel=False, **kw)

    def run():
        t, tw, ts = up(Wx, p['lay']), up(w, p['lay']), up(Sfs)
        c = up(np.asarray(const, dtype=Wx.real.dtype)) if (
            p['arr'] == 'gpu' and p['const'] == 'array') else const
        if p['what'] == 'onfly':
            o = algos.indexed_sum_onfly(t, tw, f, c, **kw)
        else:
            o = algos.ssqueeze_fast(t, tw, f, c, gamma=gamma, Sfs=ts, **kw)
        unchanged([('Wx', t, Wx), ('w', tw, w)])
        return down(o)
    g = G(p, cpu, run, ssq_how)
    if binnable(p, f):
        g.expect = lambda: expect(b, Wx, const, keep, p['flipud'],
                                  np.zeros(Wx.shape, Wx.dtype))
    return g


def ssq_how(ref, out):
    fr, fo = cmp.flat(ref), cmp.flat(out)
    if len(fr) != len(fo):
        return f"{len(fo)} values returned, expected {len(fr)}"
    for k, ((n, a), (_, b)) in enumerate(zip(fr, fo)):
        if not isinstance(a, np.ndarray):
            d = cmp.diff1(a, b)
        else:
            t = 2e-5 if a.dtype in (np.float32, np.complex64) else 1e-9
            d = (cmp.diff_ssq if k == 0 else cmp.diff1)(a, b, t)
        if d:
            return f"{n}: {d}"
    return None


def make_sq(p, rng):
    if p['scale'] == 'logpw':
        p = dict(p, scale='log')
    f, b, w, Wx, _ = plane(dict(p, const='scalar'), rng)
    if p['nb']:
        q = plane(dict(p, const='scalar'), rng)
        w, Wx = [np.stack(x) for x in ((w, q[2]), (Wx, q[3]))]
    gamma = .1
    kw = dict(ssq_freqs=f, flipud=p['flipud'], squeezing=p['squeezing'])
    stft = p['scale'] == 'lin' and p['sfs']
    Sfs = None
    if stft:
        kw['transform'] = 'stft'
        Sfs = np.linspace(0, 9, p['na']).astype(Wx.real.dtype)
        dWx = (2j * np.pi * (Sfs[:, None].astype('float64') - w) * Wx).astype(Wx.dtype)
    else:
        kw['scales'] = 2 ** (np.arange(p['na']) / p['nv'])[:, None] * 3
        dWx = (2j * np.pi * w * Wx).astype(Wx.dtype)
    if p['usew']:
        w = w.copy()
        w[np.abs(Wx) <= gamma] = np.inf
        w = w.astype(Wx.real.dtype)
    from ssqueezepy import ssqueeze

    def go(up_, Wx_):
        d = (dict(w=up_(w)) if p['usew'] else
             dict(dWx=up_(dWx), gamma=gamma, Sfs=Sfs if Sfs is None else up_(Sfs)))
        return list(ssqueeze(up_(Wx_), **d, **kw))

    def run():
        t = up(Wx)
        return down(go(up, Wx))
    return G(p, lambda: go(lambda x: x, Wx), run, ssq_how)


def gen_phase(r, big, tier):
    return dict(what=r.choice(['phase_cwt', 'phase_stft', 'replace']), lay=r.choice(LAYS),
                na=r.randint(1, 40), n=r.randint(1, 70), prec=r.choice(['single', 'double']),
                special=r.random() < .3, public=r.random() < .5)


def make_phase(p, rng):
    Wx = cplx(rng, (p['na'], p['n']), p['prec'])
    dWx = cplx(rng, (p['na'], p['n']), p['prec'])
    small = rng.random(Wx.shape) < .3
    Wx[small] *= 1e-4
    if p['special']:
        m = rng.random(Wx.shape) < .05
        Wx[m] = 0
    near = np.abs(np.abs(Wx) - .01) < 1e-4      # no ties with the threshold
    Wx[near] *= 2
    gamma = .01
    Sfs = np.linspace(0, .5, p['na']).astype(Wx.real.dtype)
    from ssqueezepy import algos
    from ssqueezepy._ssq_cwt import phase_cwt
    from ssqueezepy._ssq_stft import phase_stft
    if p['what'] == 'replace':
        w0 = real(rng, Wx.shape, p['prec'])

        def cpu():
            w = w0.copy()
            algos.replace_under_abs(w, Wx, gamma, np.inf, parallel=False)
            return w

        def run():
            t, w = up(Wx, p['lay']), up(w0)
            algos.replace_under_abs(w, t, gamma, np.inf)
            unchanged([('ref', t, Wx)])
            return down(w)
    elif p['what'] == 'phase_cwt':
        cpu = lambda: phase_cwt(Wx, dWx, gamma=gamma, parallel=False)

        def run():
            t, d = up(Wx, p['lay']), up(dWx, p['lay'])
            o = phase_cwt(t, d, gamma=gamma) if p['public'] else \
                algos.phase_cwt_gpu(t, d, gamma)
            unchanged([('Wx', t, Wx), ('dWx', d, dWx)])
            return down(o)
    else:
        cpu = lambda: phase_stft(Wx, dWx, Sfs, gamma=gamma, parallel=False)

        def run():
            t, d = up(Wx, p['lay']), up(dWx, p['lay'])
            o = phase_stft(t, d, up(Sfs), gamma=gamma)
            unchanged([('Sx', t, Wx), ('dSx', d, dWx)])
            return down(o)
    return G(p, cpu, run)


def gen_buf(r, big, tier):
    seg = r.randint(1, 40)
    return dict(seg=seg, ov=r.randint(0, seg - 1), n=seg + r.randint(0, 120),
                nb=r.choice([0, 0, 1, 3]), prec=r.choice(['single', 'double']),
                mod=r.random() < .5, lay=r.choice([None, None, 'cols', 'crop']))


def make_buf(p, rng):
    n = max(p['n'], p['seg'])
    ov = min(p['ov'], p['seg'] - 1)
    x = real(rng, (p['nb'], n) if p['nb'] else (n,), p['prec'])
    from ssqueezepy.utils import buffer

    def run():
        t = up(x, p['lay'])
        o = buffer(t, p['seg'], ov, modulated=p['mod'])
        unchanged([('x', t, x)])
        return down(o)
    return G(p, lambda: buffer(x, p['seg'], ov, modulated=p['mod'], parallel=False), run)


# ---- wavelets ------------------------------------------------------------------
def gen_wav(r, big, tier):
    return dict(wav=pick(r), n=r.randint(2, 80), ns=r.choice([0, 1, 2, 5]),
                prec=r.choice(['single', 'double']), nohalf=r.random() < .5,
                what=r.choice(['psih', 'psih', 'psi', 'w', 'Psih']))


def make_wav(p, rng):
    n = p['n']
    dt = 'float32' if p['prec'] == 'single' else 'float64'
    sc = (np.sort(2 ** rng.uniform(0, 5, p['ns'])).reshape(-1, 1).astype(dt)
          if p['ns'] else float(2 ** rng.uniform(0, 4)))
    wv = rng.uniform(-6, 12, (max(1, p['ns']), n)).astype(dt)

    def go():
        w = wavelet(p)
        if p['what'] == 'psih':
            return w(scale=sc, N=n, nohalf=p['nohalf'])
        if p['what'] == 'psi':
            return w.psifn(scale=sc, N=n)
        if p['what'] == 'w':
            return w(wv)
        return w.Psih(sc if p['ns'] else np.array([[sc]], dt), N=n, nohalf=p['nohalf'])
    return G(p, go, lambda: down(go()))


# ---- transforms ----------------------------------------------------------------
def gen_tr(r, big, tier):
    p = dict(what=r.choice(['cwt', 'cwt', 'ssq_cwt', 'ssq_cwt', 'stft', 'ssq_stft']),
             wav=pick(r), n=r.choice([20, 33, 64, 100]), nb=r.choice([0, 0, 0, 2]),
             prec=r.choice(['single', 'double']), ns=r.choice([6, 9, 12]),
             step=r.choice([2, 3, 4]), vectorized=r.random() < .7,
             derivative=r.random() < .5, dl1=r.random() < .7, order=r.choice([0, 0, 0, 1]),
             padtype=r.choice(['reflect', 'zero', 'none']), rpad=r.random() < .15,
             astensor=r.random() < .7, xgpu=r.random() < .4, cache=r.random() < .4,
             hop=r.choice([1, 1, 2, 3]), nfft=r.choice([8, 15, 16]), mod=r.random() < .6,
             flipud=r.random() < .5, get_w=r.random() < .4, keep=r.choice([None, True, False]),
             freqs=r.choice([None, None, 'log', 'linear']), fs=r.choice([None, 2., 400.]),
             mr=r.choice(['maximal', 'peak']), squeezing=r.choice(['sum', 'sum', 'abs', 'lebesgue']),
             lin=r.random() < .2, given=r.random() < .3)
    return p


def make_tr(p, rng):
    x = signal(rng, (p['nb'], p['n']) if p['nb'] else (p['n'],), p['prec'])
    import ssqueezepy as sp
    name, o = p['wav']
    l1 = o.get('norm') != 'energy' and (name == 'gmw' or p['dl1'])
    order = p['order'] if name == 'gmw' and not o.get('order') else 0
    pad = None if p['padtype'] == 'none' else p['padtype']
    sc = 2 ** (1 + np.arange(p['ns']) / p['step'])
    if p['lin']:
        sc = np.linspace(2, 2 + p['ns'] / 2, p['ns'])
    dt = 'float32' if p['prec'] == 'single' else 'float64'
    fs = {} if p['fs'] is None else dict(fs=p['fs'])
    what = p['what']
    at = dict(astensor=p['astensor'])
    xgpu = p['xgpu'] and 'cwt' in what      # the STFT takes arrays

    def go(x):
        if what == 'cwt':
            w = wavelet(p)
            kw = dict(scales=sc, l1_norm=l1, vectorized=p['vectorized'], padtype=pad,
                      derivative=p['derivative'] and not order, order=order,
                      rpadded=p['rpad'] and not order and pad is not None,
                      cache_wavelet=p['cache'] and p['vectorized'], **fs)
            r = list(sp.cwt(x, w, **kw, **at))
            if p['cache'] and not order:
                r += list(sp.cwt(x, w, **kw, **at))
            return r
        if what == 'stft':
            r = sp.stft(x, n_fft=p['nfft'], hop_len=p['hop'], modulated=p['mod'],
                        derivative=p['derivative'], dtype=dt,
                        padtype=pad or 'reflect', **fs)
            return list(r) if isinstance(r, tuple) else [r]
        if what == 'ssq_cwt':
            return list(sp.ssq_cwt(
                x, wavelet(p), scales=sc, padtype=pad or 'reflect', order=order,
                vectorized=p['vectorized'], flipud=p['flipud'], get_w=p['get_w'],
                get_dWx=True, preserve_transform=p['keep'], squeezing=p['squeezing'],
                maprange=p['mr'], ssq_freqs=p['freqs'], cache_wavelet=p['cache'] or None,
                **fs, **at))
        return list(sp.ssq_stft(
            x, n_fft=p['nfft'], hop_len=1, modulated=True, flipud=p['flipud'], dtype=dt,
            get_w=p['get_w'], get_dWx=True, preserve_transform=p['keep'],
            squeezing=p['squeezing'], padtype=pad or 'reflect', **fs, **at))

    def run():
        t = up(x) if xgpu else x
        y = go(t)
        if xgpu:
            unchanged([('x', t, x)])
        if what != 'stft' and not p['astensor']:
            bad = [type(q).__name__ for q in y if not isinstance(q, np.ndarray)
                   and q is not None]
            if bad:
                raise NotOnGPU(f"astensor=False, returned {bad}")
        return down(y)
    if what.startswith('ssq'):
        return G(p, lambda: go(x), lambda: again(run(), p, sc, pad or 'reflect', fs), tr_ssq_how(p))
    return G(p, lambda: go(x), run)


def again(y, p, sc, pad, fs):
    """What a synchrosqueezing transform returned, and what the CPU makes of the very
    transform and derivative which it returned (rounding of which decides on bins)."""
    from ssqueezepy.ssqueezing import ssqueeze
    from ssqueezepy._ssq_cwt import phase_cwt
    from ssqueezepy._ssq_stft import phase_stft
    gpu(False)
    Wx, dWx = y[1], y[-1]
    w = y[4] if p['get_w'] else None
    eps = np.finfo(Wx.dtype).eps
    kw = dict(squeezing=p['squeezing'], flipud=p['flipud'], gamma=10 * eps, dWx=dWx)
    os.environ['SSQ_PARALLEL'] = '0'
    stft = p['what'] == 'ssq_stft'
    phase = [phase_stft(Wx, dWx, y[3], 10 * eps) if stft else
             phase_cwt(Wx, dWx, gamma=10 * eps)] if p['get_w'] else []
    if stft:
        Tx, f = ssqueeze(Wx, w, ssq_freqs=y[3], Sfs=y[3], transform='stft', **kw)
    else:
        Tx, f = ssqueeze(Wx, w, ssq_freqs=p['freqs'], scales=sc, wavelet=wavelet(p),
                         maprange=p['mr'], was_padded=pad is not None, **kw, **fs)
    return dict(out=y, Tx=Tx, phase=phase)


def tr_ssq_how(p):
    def how(ref, out):
        y, T = out['out'], out['Tx']
        if len(ref) != len(y):
            return f"{len(y)} values returned, expected {len(ref)}"
        single = p['prec'] == 'single'
        for k in range(1, len(ref)):
            if p['get_w'] and k == 4:
                d = diff(out['phase'], [y[4]], single)
            else:
                d = diff([ref[k]], [y[k]], single)
            if d:
                return f"[{k}] {d}"
        if y[0].shape != ref[0].shape or y[0].dtype != ref[0].dtype:
            return f"Tx: {y[0].dtype} {y[0].shape}, expected {ref[0].dtype} {ref[0].shape}"
        d = cmp.diff_ssq(T, y[0], 2e-5 if T.dtype in (np.float32, np.complex64) else 1e-9)
        return d and 'Tx: ' + d
    return how


# ---- several calls: kernels are kept from one to the next -----------------------
def gen_series(r, big, tier):
    kind = r.choice(['kernels', 'kernels', 'phase', 'buffer'])
    g = dict(kernels=gen_k, phase=gen_phase, buffer=gen_buf)[kind]
    ps = [g(r, big and kind != 'buffer', tier)]
    for _ in range(r.choice([1, 1, 2])):
        q = g(r, False, tier)
        for k in ('what', 'prec', 'scale', 'sfs', 'mod', 'lay'):
            if k in q and r.random() < .9:
                q[k] = ps[0][k]
        if r.random() < .3:         # differing in one thing only
            k = r.choice(sorted(q))
            q = dict(ps[0], **{k: q[k]})
        if q.get('scale') == 'logpw':
            q['na'] = max(q['na'], 8)
        ps.append(q)
    return dict(kind=kind, ps=ps, prec=ps[0]['prec'])


def make_series(p, rng):
    mk = dict(kernels=make_k, phase=make_phase, buffer=make_buf)[p['kind']]
    gs = [mk(q, rng) for q in p['ps']]

    def how(ref, out):
        for k, (g, a, b) in enumerate(zip(gs, ref, out)):
            d = g.cmp(a, b)
            if d:
                return f"call {k + 1}: {d}"
        return None
    return G(p, lambda: [g.cpu() for g in gs], lambda: [g.gpu() for g in gs], how)


class K06(KProp):
    ID = 'K06'
    GPU = True
    PYFFTW = 'none'
    OPS = dict(kernels=(5, gen_k, make_k), phase=(3, gen_phase, make_phase),
               buffer=(2, gen_buf, make_buf), wavelet=(3, gen_wav, make_wav),
               transform=(5, gen_tr, make_tr),
               series=(3, gen_series, make_series))

    def run(self, sc):
        from sim import simgpu
        for d in (COUNTS, simgpu.STATS):
            d.update(dict.fromkeys(d, 0))
        r = super().run(sc)
        r['counts'].update(COUNTS)
        r['counts'].update({'gpu_' + k: v for k, v in simgpu.STATS.items()})
        if COUNTS['unsimulated']:
            r['key'] = None
        return r

    REAL = ['ssqueezepy, including its CUDA kernels (compiled by g++)']
    STUB = ['torch and cupy: sim/simgpu.py over NumPy', 'the GPU: a grid of simulated '
            'threads, sim/vsched.c']


PROP = K06()
