"""S10: saved FFT plans survive crashes and disk faults, and never break a transform."""
import copy
import os
import random
import shutil
import numpy as np
from sim import disk, simfftw
from sim.engine import Prop, ddmin_lists
import hashlib

FILES = {'wisdom32': 's', 'wisdom64': 'd'}


def session(job):
    """Runs in its own simulated process. Returns what it saw."""
    import builtins
    import logging
    logging.disable(logging.CRITICAL)
    builtins.print = lambda *a, **k: None
    import sys
    simfftw.forget_wisdom()
    simfftw.BAD_IMPORTS.clear()
    if job['full']:
        for m in [m for m in sys.modules if m.split('.')[0] == 'ssqueezepy']:
            del sys.modules[m]
    import ssqueezepy                                     # noqa: loads wisdom
    from ssqueezepy.utils import fft_utils
    if not job['full']:
        # as when loading the package, but without reloading its code
        fft_utils.FFT_GLOBAL.__dict__.clear()
        fft_utils.FFT_GLOBAL.__init__()
    loaded = {k: sorted(simfftw._wisdom[k]) for k in 'ds'}
    bad_imports = list(simfftw.BAD_IMPORTS)
    F = fft_utils.FFT_GLOBAL
    if job.get('own'):
        F = fft_utils.FFT(planning_timelimit=5, threads=1)
    if job.get('cache'):
        F.cache_fft_objects = True
    problems = []
    for k, op in enumerate(job['ops']):
        kind = op['kind']
        if kind == 'set':
            try:
                for q, v in op['to']:
                    setattr(F, q, tuple(v) if isinstance(v, list) else v)
            except Exception as e:
                problems.append(f"setting {op['to']} raised {type(e).__name__}: {e}")
            continue
        rng = np.random.default_rng(op['seed'])
        sh = tuple(op['shape'])
        cplx = kind in ('fft', 'ifft', 'irfft')
        x = rng.standard_normal(sh)
        if cplx and not op.get('realin'):
            x = x + 1j * rng.standard_normal(sh)
        single = op['single']
        x = x.astype(('complex64' if single else 'complex128')
                     if np.iscomplexobj(x) else ('float32' if single else 'float64'))
        kw = dict(n=op['n']) if kind == 'irfft' else {}
        pat = tuple(op['patience']) if isinstance(op['patience'], list) else op['patience']
        x0 = x.copy()
        try:
            if kind == 'cwt':
                kw = dict(nv=4, padtype=None, astensor=False)
                y = ssqueezepy.cwt(x, 'morlet', patience=pat, **kw)[0]
                ref = ssqueezepy.cwt(x0, 'morlet', patience=0, **kw)[0]
            else:
                y = getattr(F, kind)(x, axis=op['axis'], patience=pat, **kw)
                ref = getattr(np.fft, kind)(x0, axis=op['axis'], **kw)
        except Exception as e:
            problems.append(f"{kind} raised {type(e).__name__}: {e}")
            continue
        if np.shape(y) != ref.shape or not np.allclose(
                y, ref, atol=(1e-4 if single else 1e-9) * max(1, np.abs(ref).max())):
            problems.append(f"{kind} returned a wrong result")
    return dict(problems=problems, loaded=loaded, bad_imports=bad_imports,
                plans={k: sorted(simfftw._wisdom[k]) for k in 'ds'},
                anew=simfftw.STATS['planned_anew'])


def keys_of(kind, b):
    return None if b is None else simfftw.decode(kind, b)


def gen_op(r):
    if r.random() < .2:
        return dict(kind='set', to=[r.choice(
            [['patience', 0], ['patience', 1], ['patience', 2], ['patience', [1, 5]],
             ['patience', [2, 5]]] * 2 + [['cache_fft_objects', True], [
                 'cache_fft_objects', False], ['planning_timelimit', 3]])
            for _ in range(r.choice([1, 2, 2, 3]))])
    kind = r.choice(['fft', 'rfft', 'ifft', 'irfft', 'fft', 'rfft', 'cwt'])
    if kind == 'cwt':
        return dict(kind=kind, shape=[r.choice([32, 40])], axis=-1, single=r.random() < .5,
                    seed=r.getrandbits(16),
                    patience=r.choice([1, 2]), realin=True, n=None)
    two = r.random() < .4
    sh = [r.choice([2, 3]), r.choice([4, 6, 8])] if two else [r.choice([4, 5, 8, 12])]
    ax = r.choice([0, 1, -1]) if two else -1
    return dict(kind=kind, shape=sh, axis=ax, single=r.random() < .5, seed=r.getrandbits(16),
                patience=r.choice([0, 1, 1, 2, [1, 5], [2, 1], None, None]),
                n=(2 * (sh[ax] - 1) or 2) if kind == 'irfft' and sh[ax] > 1 else
                (r.choice([2, 3]) if kind == 'irfft' else None))


class S10(Prop):
    ID = 'S10'
    RUNS = dict(quick=6000, thorough=400000)
    CAP = dict(quick=45, thorough=1800)
    PYFFTW = 'stub'
    RULE = ('distinct histories in which at least one fault or crash was injected or '
            'two sessions overlapped; a history is the sequence of (session, disk '
            'operation, file, verdict, outcome)')
    SIMTIME = 'counted in disk operations (one tick each)'
    REAL = ['ssqueezepy.utils.fft_utils (load_wisdom, save_wisdom, FFT)',
            'package import, real files in a scratch directory, real processes and kills']
    STUB = ['pyfftw (sim/simfftw.py: numpy transforms, wisdom as checksummed key sets)',
            'disk faults, ordering of operations and crashes (sim/simdisk.c)']
    ASSUME = ['a crash is the death of the process: what it wrote before is kept by '
              'the OS (no power loss, so no lost page cache)',
              'plans added by two overlapping sessions may overwrite one another '
              '(only sessions that follow each other are promised to accumulate)']

    def warm(self):
        def f():
            import ssqueezepy
            for dt in ('float32', 'float64'):
                x = np.ones(32, dt)
                ssqueezepy.cwt(x, 'morlet', nv=4, padtype=None)
        return [f]

    def scenario(self, seed, tier):
        r = random.Random(seed)
        init = {}
        for f in FILES:
            init[f] = r.choice(['good', 'good', 'good', 'absent', 'trunc', 'garbage',
                                'empty', 'asis'])
        waves = []
        for _ in range(r.randint(1, 4)):
            waves.append([dict(ops=[gen_op(r) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))],
                               own=r.random() < .15, cache=r.random() < .2,
                               full=r.random() < .3)
                          for _ in range(r.choice([1, 1, 1, 2]))])
        waves.append([dict(ops=[gen_op(r) for _ in range(r.randint(0, 2))], own=False,
                           full=r.random() < .3, cache=False)])
        return dict(seed=r.getrandbits(40), init=init, waves=waves,
                    rate=r.choice([0, .02, .05, .1, .25, 1.]),
                    where=r.choice(['any', 'save', 'save']),
                    kinds=r.choice([['error'], ['crash'], ['short'],
                                    ['error', 'crash', 'short']]),
                    calm_last=r.random() < .8,
                    sticky=r.choice([None, None, None, 'readonly', 'full', 'unreadable']))

    def initial(self, r, how, kind, asis):
        keys = {f"c2c F {i}x x {kind}" for i in range(r.randint(1, 30))}
        good = simfftw.encode(kind, keys)
        return dict(good=good, absent=None, trunc=good[:r.randrange(1, len(good))],
                    garbage=bytes(r.getrandbits(8) for _ in range(40)), empty=b'',
                    asis=asis)[how]

    def run(self, sc):
        work = os.path.join(os.environ['SSQSIM_WORK'], 'run%d' % os.getpid())
        ov = os.path.join(work, 'ssqueezepy')
        shutil.copytree(os.path.join(os.environ['SIMDISK_OVERLAY'], 'ssqueezepy'), ov)
        disk.set_overlay(work)
        try:
            return self._run(sc, ov)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def _run(self, sc, ov):
        r = random.Random(sc['seed'])
        path = {f: os.path.join(ov, 'utils', f) for f in FILES}

        def contents():
            out = {}
            for f, p in path.items():
                try:
                    with open(p, 'rb') as fh:
                        out[f] = fh.read()
                except FileNotFoundError:
                    out[f] = None
            return out
        for f, kind in FILES.items():
            b = self.initial(random.Random(sc['seed'] + len(f) + ord(f[-1])),
                             sc['init'][f], kind, contents()[f])
            if b is None:
                if os.path.exists(path[f]):
                    os.unlink(path[f])
            else:
                with open(path[f], 'wb') as fh:
                    fh.write(b)
        start = contents()
        last = dict(start)
        hist, dec = [], []
        counts = {}
        given = sc.get('dec')
        viol = sig = None
        step = 0

        def count(k, n=1):
            counts[k] = counts.get(k, 0) + n

        def fail(s, text):
            nonlocal viol, sig
            if viol is None:
                viol, sig = text, s

        overlap = faults = 0
        for wi, wave in enumerate(sc['waves']):
            calm = (wi == len(sc['waves']) - 1) and sc['calm_last']
            before = contents()
            ss = [disk.Session(session, j, 'configs.ini') for j in wave]
            faulted = [[] for _ in wave]
            overlap += len(wave) > 1
            for s in ss:
                s.pump()
            while True:
                live = [i for i, s in enumerate(ss) if not s.ended]
                if not live:
                    break
                if given is not None:
                    who, what, arg = given[step] if step < len(given) else (0, 0, 0)
                    if who not in live:
                        who = live[0]
                else:
                    who, what, arg = r.choice(live), 0, 0
                s = ss[who]
                op, name, name2, n = s.pending
                if given is None and not calm:
                    if r.random() < sc['rate'] and (sc['where'] == 'any' or op not in
                                                    ('read', 'open-read')):
                        what, arg = disk.choose_fault(r, op, n, sc['kinds'])
                    st = sc['sticky']
                    import errno
                    if st == 'readonly' and op in ('open-trunc', 'open-write', 'rename', 'unlink'):
                        what, arg = disk.ERR, errno.EROFS
                    elif st == 'full' and op == 'write':
                        what, arg = disk.ERR, errno.ENOSPC
                    elif st == 'unreadable' and op == 'open-read':
                        what, arg = disk.ERR, errno.EACCES
                step += 1
                dec.append([who, what, arg])
                s.last = None
                s.answer(what, arg)
                hist.append((wi, who, op, disk.norm(name), disk.norm(name2), what, arg,
                             s.last and min(s.last[1], 1)))
                count('disk_operations')
                if what:
                    faults += 1
                    faulted[who].append((op, what))
                    count(f'fault: {disk.VNAME[what]} ({op})')
                now = contents()
                for f, kind in FILES.items():
                    b = now[f]
                    if b == last[f]:
                        continue
                    if b is None:
                        fail('gone', f"{f} is gone after {hist[-1]}")
                    elif keys_of(kind, b) is None:
                        fail('torn', f"{f} is incomplete ({len(b)} bytes, was "
                             f"{len(last[f] or b'')}) after {hist[-1]}: a crash "
                             f"here or a reader now would get it")
                last = now
            for i, s in enumerate(ss):
                st = s.out[0]
                if s.killed:
                    count('sessions_crashed')
                    continue
                count('sessions_completed')
                if st != 'ok':
                    fail('broken', f"session {wi}.{i} ended: {s.out[:2]}, faults "
                         f"{faulted[i]}")
                    continue
                o = s.out[1]
                if o['problems']:
                    fail('broken', f"session {wi}.{i}: {o['problems'][0]}, faults "
                         f"{faulted[i]}")
                for f, kind in FILES.items():
                    if len(wave) > 1:
                        continue
                    had = keys_of(kind, before[f]) if before[f] else set()
                    if had and not faulted[i] and not had <= set(o['loaded'][kind]):
                        fail('notloaded', f"session {wi} did not load {f}'s plans")
                    now_ = keys_of(kind, last[f]) if last[f] else set()
                    if had and (now_ is None or not had <= now_):
                        fail('discarded', f"session {wi} discarded plans of {f}: had "
                             f"{len(had)}, has {len(now_ or ())}; faults {faulted[i]}")
                    if not faulted[i] and not set(o['plans'][kind]) <= (now_ or set()):
                        fail('notsaved', f"session {wi} did not save its plans to {f}")
                for b in o['bad_imports']:
                    if b not in [hashlib.sha1(x or b'').hexdigest() for x in start.values()]:
                        fail('halfread', f"session {wi}.{i} imported damaged wisdom "
                             f"that was never the content of a file")
            hist.append((wi, [s.out[0] for s in ss]))
            if len(wave) > 1:
                count('waves_overlapping')
            count('waves')
            if viol:
                break
        h = hashlib.sha1(repr((hist, viol)).encode()).hexdigest()[:16]
        rec = sc
        if viol:
            rec = copy.deepcopy(sc)
            rec['dec'] = dec
        return dict(viol=viol, sig=sig, hash=h, sc=rec, counts=counts,
                    key=h if (faults or overlap) else None)

    def shrink(self, sc):
        if len(sc['waves']) > 1:
            for k in range(len(sc['waves'])):
                c = copy.deepcopy(sc)
                del c['waves'][k]
                c.pop('dec', None)
                for seed in range(3):
                    d = copy.deepcopy(c)
                    d['seed'] += seed
                    yield d
        for w, wave in enumerate(sc['waves']):
            if len(wave) > 1:
                for k in range(len(wave)):
                    c = copy.deepcopy(sc)
                    del c['waves'][w][k]
                    c.pop('dec', None)
                    yield c
            for k, p in enumerate(wave):
                for o in range(len(p['ops'])):
                    c = copy.deepcopy(sc)
                    del c['waves'][w][k]['ops'][o]
                    yield c
                    c = copy.deepcopy(c)
                    c.pop('dec', None)
                    yield c
        if 'dec' in sc:
            bad = [i for i, d in enumerate(sc['dec']) if d[1]]
            for keep in ddmin_lists(bad):
                c = copy.deepcopy(sc)
                for i in bad:
                    if i not in keep:
                        c['dec'][i][1:] = [0, 0]
                yield c
            for i, d in enumerate(sc['dec']):
                if d[0]:
                    c = copy.deepcopy(sc)
                    c['dec'][i][0] = 0
                    yield c
        for f, how in sc['init'].items():
            if how != 'absent':
                c = copy.deepcopy(sc)
                c['init'][f] = 'absent'
                yield c

    def extra_evidence(self, c):
        return dict(faults_injected={k[7:]: v for k, v in sorted(c.items())
                                     if k.startswith('fault: ')},
                    simulated_disk_operations=c.get('disk_operations', 0))


PROP = S10()
