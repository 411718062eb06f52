"""S11: FFT results are right whatever planning, caching and earlier calls."""
import copy
import hashlib
import os
import random
import shutil
import numpy as np
from sim import cmp, disk, mem, simfftw
from sim.engine import Prop, ddmin_lists
from . import ops
from .hist import quiet

KINDS = ['fft', 'rfft', 'ifft', 'irfft']
LAYS = [None, None, None, 'strided', 'reversed', 'fortran', 'offset', 'readonly']


def patience(v):
    return tuple(v) if isinstance(v, list) else v


def reference(op, x):
    """By definition, in double precision, whatever numpy.fft's version does."""
    kind, ax = op['kind'], op['axis']
    z = np.moveaxis(x.astype('complex128'), ax, -1)
    m = z.shape[-1]
    if kind in ('fft', 'rfft'):
        k = np.arange(m if kind == 'fft' else m // 2 + 1)
        y = z @ np.exp(-2j * np.pi * np.outer(np.arange(m), k) / m)
    elif kind == 'ifft':
        y = z @ np.exp(2j * np.pi * np.outer(np.arange(m), np.arange(m)) / m) / m
    else:
        n = op['n'] if op['n'] is not None else 2 * (m - 1)
        h = np.zeros(z.shape[:-1] + (n,), 'complex128')
        q = min(m, n // 2 + 1)
        h[..., :q] = z[..., :q]
        h[..., 0] = h[..., 0].real
        if n % 2 == 0:
            h[..., n // 2] = h[..., n // 2].real
        for i in range(1, (n - 1) // 2 + 1):
            h[..., n - i] = np.conj(h[..., i])
        y = (h @ np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / n).real
    return np.moveaxis(y, -1, ax)


class S11(Prop):
    ID = 'S11'
    RUNS = dict(quick=30000, thorough=1000000)
    CAP = dict(quick=45, thorough=1800)
    PYFFTW = 'both'
    RULE = ('distinct histories with at least two planned transforms on one FFT object; '
            'identified by the digest of all operations and their results')
    REAL = ['ssqueezepy.utils.fft_utils (FFT) over scipy.fft',
            'pyfftw itself, single-threaded, in about one run of fifty']
    STUB = ['pyfftw (sim/simfftw.py) in the others: planning overwrites its arrays, new '
            'buffers hold garbage, real inverses destroy their input',
            'the number of processors (1 to 16)']
    ASSUME = ['the reference is the transform by its definition, as a matrix product in '
              'double precision',
              'agreement within 1e-10 (2e-5 in single precision) of the largest magnitude '
              'times the length']

    def scenario(self, seed, tier):
        r = random.Random(seed)
        real = r.random() < .02
        objs = [None] + [dict(threads=r.choice([None, 1, 1, 3, -1]) if not real else 1,
                              patience=r.choice([0, 0, 1, 2]),
                              cache=r.random() < .6,
                              limit=r.choice([1, 5, 120]), verbose=r.choice([0, 1]))
                         for _ in range(r.randint(0, 2))]
        hist = []
        n = r.randint(2, 6 if real else 14 if tier == 'quick' else 25)
        while len(hist) < n:
            c = r.random()
            if c < .2:
                k = r.choice(['cache', 'patience', 'limit', 'env', 'cpus', 'verbose'])
                v = dict(cache=[True, True, False], patience=[0, 1, 2, [1, 3], [2, 1]],
                         limit=[1, 7, 60], env=['0', '1', None], cpus=[1, 2, 8],
                         verbose=[0, 1])[k]
                if real and k in ('cpus', 'limit'):
                    continue
                hist.append(dict(set=k, o=r.randrange(len(objs)), v=r.choice(v)))
                continue
            prev = [h for h in hist if 'kind' in h]
            if prev and c < .75:
                op = copy.deepcopy(r.choice(prev[-4:]))
                op['seed'] = r.getrandbits(20)
                for q, v in self.op(r, objs, real).items():
                    # shape decides which n and axis make sense
                    if q in ('o', 'patience', 'scribble', 'single', 'lay', 'realin') and \
                            r.random() < .25:
                        op[q] = v
                if r.random() < .3:
                    op['axis'] = r.choice([0, 1, -1] if len(op['shape']) > 1 else [0, -1])
                if r.random() < .3:
                    op['kind'] = r.choice(KINDS)
                if r.random() < .2:
                    op['shape'] = op['shape'][::-1]
            else:
                op = self.op(r, objs, real)
            m = op['shape'][op['axis']]
            op['n'] = None
            if op['kind'] == 'irfft' and (m == 1 or r.random() < .6):
                op['n'] = r.choice([2 * m - 1, 2 * m - 1, 2 * m - 2] if m > 1 else [1])
            hist.append(op)
        return dict(seed=seed, real=real, objs=objs, ops=hist, cpus=r.choice([1, 1, 4, 16])
                    if not real else 1, mem=r.choice(mem.BYTES))

    def op(self, r, objs, real):
        two = r.random() < .45
        sh = [r.choice([2, 3, 4]), r.choice([3, 4, 6])] if two else \
            [r.choice([1, 2, 5, 8, 9, 12])]
        return dict(kind=r.choice(KINDS), o=r.randrange(len(objs)), shape=sh,
                    axis=r.choice([0, 1, -1] if two else [0, -1]),
                    single=r.random() < .4, lay=r.choice(LAYS), realin=r.random() < .2,
                    seed=r.getrandbits(20), patience=r.choice(
                        [None, None, 0, 1, 1, 1, 2, [1, 5], [2, 1], [1, 1], [1, None]]),
                    scribble=r.random() < .3)

    def run(self, sc):
        quiet()
        import multiprocessing
        from ssqueezepy.utils import fft_utils
        ncpu = [sc['cpus']]
        mem.fill(sc['mem'])
        multiprocessing.cpu_count = lambda: ncpu[0]
        work = os.path.join(os.environ['SSQSIM_WORK'], 'run%d' % os.getpid())
        shutil.copytree(os.path.join(os.environ['SIMDISK_OVERLAY'], 'ssqueezepy'),
                        os.path.join(work, 'ssqueezepy'))
        disk.set_overlay(work)
        try:
            if sc['real']:
                fft_utils.pyfftw = simfftw.REAL
            return self._run(sc, fft_utils, ncpu)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def _run(self, sc, fu, ncpu):
        objs = []
        for i, d in enumerate(sc['objs']):
            objs.append(fu.FFT_GLOBAL if i == 0 else fu.FFT(
                planning_timelimit=d['limit'], threads=d['threads'],
                patience=d['patience'], cache_fft_objects=d['cache'], verbose=d['verbose']))
        counts = dict(transforms=0, planned=0, settings=0, earlier_results_compared=0)
        if sc['real']:
            counts['transforms_by_real_pyfftw'] = 0
        h = hashlib.sha1()
        kept, viol, sig = [], None, None
        planned = {}

        def bad(s, text):
            nonlocal viol, sig
            if viol is None:
                viol, sig = text, s
        for i, op in enumerate(sc['ops']):
            F = objs[op['o'] % len(objs)]
            if 'set' in op:
                counts['settings'] += 1
                k, v = op['set'], op['v']
                if k == 'cache':
                    F.cache_fft_objects = v
                elif k == 'patience':
                    F.patience = patience(v)
                elif k == 'limit':
                    F.planning_timelimit = v
                elif k == 'verbose':
                    F.verbose = v
                elif k == 'cpus':
                    ncpu[0] = v
                elif v is None:
                    os.environ.pop('SSQ_PARALLEL', None)
                else:
                    os.environ['SSQ_PARALLEL'] = v
                continue
            kind = op['kind']
            cplx = kind != 'rfft' and not op['realin']
            g = np.random.default_rng(op['seed'])
            x = g.standard_normal(op['shape']) + (
                1j * g.standard_normal(op['shape']) if cplx else 0)
            x = ops.layout(x.astype({(0, 0): 'float64', (0, 1): 'float32',
                                     (1, 0): 'complex128', (1, 1): 'complex64'}[
                int(cplx), int(op['single'])]), op['lay'])
            x0 = np.array(x)
            base = x if x.base is None else x.base
            base0 = base.copy()
            kw = dict(n=op['n']) if kind == 'irfft' else {}
            name = f"call {i}, {kind} of {x.dtype} {x.shape}, axis {op['axis']}, patience " \
                   f"{op['patience']}, on FFT object {op['o'] % len(objs)}"
            pat = patience(op['patience'])
            eff = F.patience if pat is None else pat
            counts['transforms'] += 1
            if sc['real']:
                counts['transforms_by_real_pyfftw'] += bool(eff)
            if eff:
                counts['planned'] += 1
                planned[op['o']] = planned.get(op['o'], 0) + 1
            try:
                y = getattr(F, kind)(x, axis=op['axis'], patience=pat, **kw)
            except Exception as e:
                bad('raised ' + kind, f"{name}: raised {type(e).__name__}: {e}")
                break
            want = reference(op, x0)
            h.update(repr((kind, np.shape(y), str(y.dtype))).encode())
            t = (2e-5 if op['single'] else 1e-10) * max(1e-30, np.abs(want).max()) * \
                x.shape[op['axis']]
            if y.shape != want.shape:
                bad('shape ' + kind, f"{name}: shape {y.shape}, expected {want.shape}")
            elif y.dtype != np.dtype(('float' if kind == 'irfft' else 'complex') + str(
                    (32 if op['single'] else 64) * (1 if kind == 'irfft' else 2))):
                bad('dtype ' + kind, f"{name}: dtype {y.dtype}")
            elif not (np.abs(y - want) <= t).all():
                bad('value ' + kind, f"{name}: differs by up to {np.abs(y - want).max():.3g}"
                    f" from the transform (largest value {np.abs(want).max():.3g})")
            if base.tobytes() != base0.tobytes():
                bad('input ' + kind, f"{name}: modified its input")
            for j, a, dg in kept:
                counts['earlier_results_compared'] += 1
                if cmp.digest(a) != dg:
                    bad('earlier ' + kind, f"{name}: changed what call {j} had returned")
            if viol:
                break
            if not sc['real']:
                h.update(np.ascontiguousarray(y).tobytes())
            if op['scribble'] and y.flags.writeable:
                y[...] = np.nan
                for j, a, dg in kept:
                    if cmp.digest(a) != dg:
                        bad('shared ' + kind, f"{name}: its result shares memory with what "
                            f"call {j} returned")
                if base.tobytes() != base0.tobytes():
                    bad('sharedin ' + kind, f"{name}: its result shares memory with its input")
            if base.flags.writeable and op['scribble']:
                base[...] = 7
            kept.append((i, y, cmp.digest(y)))
        hx = h.hexdigest()[:16]
        return dict(viol=viol, sig=sig, hash=hx, counts=counts,
                    key=hx if max(planned.values(), default=0) > 1 else None)

    def shrink(self, sc):
        for keep in ddmin_lists(list(range(len(sc['ops'])))):
            if keep:
                c = copy.deepcopy(sc)
                c['ops'] = [c['ops'][i] for i in keep]
                yield c
        if sc['cpus'] != 1:
            yield dict(copy.deepcopy(sc), cpus=1)
        for i, op in enumerate(sc['ops']):
            for q, v in (('lay', None), ('scribble', False), ('single', False)):
                if op.get(q, v) != v:
                    c = copy.deepcopy(sc)
                    c['ops'][i][q] = v
                    yield c


PROP = S11()
