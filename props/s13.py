"""S13: configuration changes take effect at the next call, whole or not at all."""
import copy
import errno
import hashlib
import os
import random
import shutil
import numpy as np
from sim import cmp, disk, engine, mem, parfor
from sim.engine import Prop, ddmin_lists
from . import ops
from .hist import quiet

# module, object -> {key: possible values}
KEYS = {
    ('configs', 'IS_PARALLEL'): dict(parallel=[0, 1]),
    ('wavelets', 'morlet'): dict(mu=[13.4, 6, 5, 8.5], dtype=['float32', 'float64']),
    ('wavelets', 'bump'): dict(mu=[5, 4, 6], s=[1, 1.2], om=[0, .5],
                               dtype=['float32', 'float64']),
    ('wavelets', 'cmhat'): dict(mu=[1, 1.5], s=[1, 1.5], dtype=['float32', 'float64']),
    ('wavelets', 'hhhat'): dict(mu=[5, 4, 6], dtype=['float32', 'float64']),
    ('_gmw', 'gmw'): dict(gamma=[3, 2, 4], beta=[60, 12, 20], norm=['bandpass', 'energy'],
                          order=[0], centered_scale=[False, True],
                          dtype=['float32', 'float64']),
    ('_stft', 'stft'): dict(dtype=['float32', 'float64']),
    ('utils.cwt_utils', 'make_scales'): dict(downsample=[4, 2, 3]),
    ('visuals', '_maybe_title'): dict(fontsize=[16, 9], weight=['bold', 'normal'],
                                      loc=['left', 'center', 'right']),
}
SHIPPED = {o: {k: v[0] for k, v in d.items()} for o, d in KEYS.items()}
SHIPPED['configs', 'IS_PARALLEL']['parallel'] = 1
WAVES = ('morlet', 'bump', 'cmhat', 'hhhat', 'gmw')
END = '#### END'


def text(cfg, style):
    """A configuration file saying `cfg`, written as a user might."""
    r = random.Random(style)
    mods = {}
    for (m, o), d in cfg.items():
        mods.setdefault(m, []).append((o, d))
    names = list(mods)
    if style:
        r.shuffle(names)
    eol = '\r\n' if style and r.random() < .15 else '\n'
    out = []
    for m in names:
        out.append('## ' + m)
        objs = mods[m]
        if style:
            r.shuffle(objs)
        for o, d in objs:
            out.append('# ' + o)
            keys = list(d)
            if style:
                r.shuffle(keys)
            for k in keys:
                v = str(d[k])
                if style:
                    if isinstance(d[k], str) and r.random() < .3:
                        v = r.choice(["'%s'", '"%s"']) % v
                    if isinstance(d[k], int) and not isinstance(d[k], bool) and \
                            r.random() < .2:
                        v += '.0'
                    out.append(r.choice(['', '', ' ']) + k + r.choice(['=', ' = ', '= ', ' ='])
                               + v + r.choice(['', '', ' ']))
                else:
                    out.append(f'{k}={v}')
                if style and r.random() < .1:
                    out.append('')
            out.append('')
    out += [END, '#### do not edit above line ####']
    if style and r.random() < .5:            # has no effect
        out += ['## wavelets', '# morlet', 'mu=99', 'nonsense', '']
    return eol.join(out) + r.choice(['', eol])


def clean(cfg, obj, drop=()):
    return {k: v for k, v in cfg[obj].items() if k not in drop}


def obj_of(w):
    return ('_gmw' if w == 'gmw' else 'wavelets', w)


def explicit(op, cfg):
    """The same operation with every default spelled out."""
    f, a, k = op['f'], list(op.get('a', [])), dict(op.get('k', {}))
    if f == 'wavfn':
        w = op['w']
        k = {**clean(cfg, obj_of(w)), **k}
    elif f in ('wavelet', 'cwt', 'ssq_cwt', 'cfreq', 'scales'):
        w = op['w']
        k['wopts'] = {**clean(cfg, obj_of(w)), **k.get('wopts', {})}
        if w == 'gmw' and f == 'cwt':
            k['wopts']['norm'] = 'bandpass'         # goes with l1_norm=True
        if f == 'scales':
            k.setdefault('downsample', cfg['utils.cwt_utils', 'make_scales']['downsample'])
    elif f in ('stft', 'ssq_stft'):
        k.setdefault('dtype', cfg['_stft', 'stft']['dtype'])
    elif f == 'title':
        k = {**cfg['visuals', '_maybe_title'], **k}
    return dict(op, k=k)


def signal(seed, shape, dtype='float64', cplx=False):
    g = np.random.default_rng(seed)
    x = g.standard_normal(shape)
    if cplx:
        x = x + 1j * g.standard_normal(shape)
    return x.astype(dtype)


def plain(config):
    return {k: float(v) if isinstance(v, (int, float)) else v for k, v in config.items()}


def do(op, objs):
    import ssqueezepy as sp
    from ssqueezepy import _gmw, algos, configs, visuals, wavelets
    from ssqueezepy.utils import FFT_GLOBAL
    f, k = op['f'], copy.deepcopy(op.get('k', {}))
    par = k.pop('parallel', None)
    pk = {} if par is None else dict(parallel=par)
    w0 = np.linspace(.1, 9, 40)
    if f == 'wavfn':
        fn = getattr(_gmw if op['w'] == 'gmw' else wavelets, op['w'])
        return fn(**k)(w0.copy())
    if f in ('wavelet', 'cwt', 'ssq_cwt', 'cfreq', 'scales'):
        o = k.pop('wopts', None)
        w = (op['w'], o) if o else op['w']
    if f == 'wavelet':
        w = sp.Wavelet(w, N=64)
        objs.append(w)
        return [w.dtype, w(w0.copy()), w(scale=4.), plain(w.config)]
    if f == 'obj':                      # keeps the defaults it was made with
        if not objs:
            return None
        w = objs[op['i'] % len(objs)]
        return [w.dtype, w(w0.copy()), w(scale=4., N=65), plain(w.config)]
    if f == 'cwt':
        return sp.cwt(signal(op['seed'], 64), w, nv=4, **k)
    if f == 'ssq_cwt':
        return sp.ssq_cwt(signal(op['seed'], 64), w, nv=4, **k)
    if f == 'cfreq':
        return wavelets.center_frequency(w, scale=9., N=128)
    if f == 'scales':
        return sp.utils.process_scales('log', 128, wavelet=w, nv=8) if op.get('p') else \
            sp.utils.make_scales(2048, 2, 400, nv=16, scaletype='log-piecewise', wavelet=w, **k)
    if f == 'stft':
        return sp.stft(signal(op['seed'], 70), n_fft=16, **k)
    if f == 'ssq_stft':
        return sp.ssq_stft(signal(op['seed'], 70), n_fft=16, **k)
    if f == 'title':
        import matplotlib.pyplot as plt
        plt.close('all')
        visuals.plot(signal(1, 9), title=('a', k) if k else 'a')
        ax = plt.gca()
        out = {q: ax.get_title(loc=q) for q in ('left', 'center', 'right')}
        t = {'left': ax._left_title, 'center': ax.title, 'right': ax._right_title}[
            next(q for q in out if out[q])]
        out.update(size=float(t.get_fontsize()), weight=str(t.get_fontweight()))
        plt.close('all')
        return out
    if f == 'is_parallel':
        return bool(configs.IS_PARALLEL())
    if f == 'threads':
        import multiprocessing
        old = multiprocessing.cpu_count
        multiprocessing.cpu_count = lambda: 3
        try:
            return FFT_GLOBAL.threads
        finally:
            multiprocessing.cpu_count = old
    W, D = (signal(op['seed'] + j, (12, 40), 'complex128', True) for j in (0, 1))
    if f == 'buffer':
        return sp.utils.buffer(signal(op['seed'], 60), 8, 5, **pk)
    if f == 'phase_cwt':
        return sp._ssq_cwt.phase_cwt(W, D, **pk)
    if f == 'phase_stft':
        return sp._ssq_stft.phase_stft(W, D, np.linspace(0, .5, 12), **pk)
    if f == 'isum':
        return algos.indexed_sum_onfly(W, np.abs(D) / 8, np.linspace(0, .5, 12), **pk)
    if f == 'isum0':
        return algos.indexed_sum(W, (np.abs(D) * 3).astype(int) % 12, **pk)
    if f == 'under':
        algos.replace_under_abs(W, ref=D, value=.7, **pk)
        return W
    if f == 'denormals':
        W[::3] *= 1e-310
        algos.zero_denormals(W.real.copy(), **pk)
        return None
    if f == 'ssqfast':
        return algos.ssqueeze_fast(W, D, np.linspace(.01, .5, 12), .04, gamma=1e-3, **pk)
    raise KeyError(f)


PAR_OPS = ('buffer', 'phase_cwt', 'phase_stft', 'isum', 'isum0', 'under', 'denormals',
           'ssqfast')


def attempt(op, objs):
    n = parfor.stats()['regions']
    try:
        v = ('ok', do(op, objs))
    except Exception as e:
        v = ('raise', f'{type(e).__name__}: {e}')
    return (*v, parfor.stats()['regions'] > n)


def alone(job):
    """In a process with the shipped configuration: the explicit operation."""
    made, op, on, byte = job
    mem.fill(byte)
    quiet()
    os.environ.pop('SSQ_PARALLEL', None)
    if not on:
        os.environ['SSQ_PARALLEL'] = '0'
    objs = []
    if made:
        attempt(made, objs)
    return attempt(op, objs)


class S13(Prop):
    ID = 'S13'
    RUNS = dict(quick=6000, thorough=300000)
    CAP = dict(quick=50, thorough=1800)
    PYFFTW = 'stub'
    RULE = ('distinct histories with a call after a configuration change or a fault; '
            'identified by the digest of all outcomes')
    REAL = ['ssqueezepy.configs and every function taking defaults from it, compiled '
            'kernels included', 'the configuration file, in a scratch directory']
    STUB = ["numba's threading layer (sim/vsched.c), which tells whether a call ran "
            'anything in parallel', 'disk faults (sim/simdisk.c)', 'pyfftw']
    ASSUME = ['edits happen between calls, not during one',
              'the reference is the call with every default spelled out, in a session '
              'with the shipped configuration file',
              'extract_ridges and find_closest choose their mode by their own argument, as '
              'documented']

    def warm(self):
        def job(par):
            def f():
                quiet()
                os.environ['SSQ_PARALLEL'] = par
                parfor.configure(threads=2)
                r = random.Random(5)
                for _ in range(260):
                    cfg = self.newcfg(r, SHIPPED)
                    attempt(explicit(self.op(r), cfg), [])
            return f
        return [job('1'), job('0')]

    def newcfg(self, r, cfg):
        cfg = copy.deepcopy(cfg)
        for o, d in KEYS.items():
            for k, vs in d.items():
                if r.random() < .25:
                    cfg[o][k] = r.choice(vs)
        if cfg['_gmw', 'gmw']['norm'] == 'energy':  # needs it
            cfg['_gmw', 'gmw']['dtype'] = 'float64'
        return cfg

    def op(self, r):
        f = r.choice(['wavfn', 'wavfn', 'wavelet', 'wavelet', 'obj', 'cwt', 'ssq_cwt', 'cfreq',
                      'scales', 'scales', 'stft', 'ssq_stft', 'title', 'is_parallel',
                      'threads', *PAR_OPS])
        op = dict(f=f, seed=r.getrandbits(20))
        if f == 'obj':
            return dict(f=f, i=r.randrange(3))
        if f in ('wavfn', 'wavelet', 'cwt', 'ssq_cwt', 'cfreq', 'scales'):
            op['w'] = r.choice(WAVES)
            if r.random() < .3:          # some given explicitly
                d = KEYS[obj_of(op['w'])]
                o = {k: r.choice(d[k]) for k in d if r.random() < .5 and k != 'norm' and
                     (op['w'], k) != ('gmw', 'dtype')}
                op['k'] = o if f == 'wavfn' else dict(wopts=o)
            if f == 'scales' and r.random() < .2:
                op.setdefault('k', {})['downsample'] = 5
            if f in ('cwt', 'ssq_cwt') and r.random() < .3:
                op.setdefault('k', {})['scales'] = 'log-piecewise'
        elif f in ('stft', 'ssq_stft') and r.random() < .3:
            op['k'] = dict(dtype=r.choice(['float32', 'float64']))
        elif f == 'title' and r.random() < .4:
            op['k'] = r.choice([dict(fontsize=7), dict(loc='left'), dict(weight='normal')])
        elif f in PAR_OPS and r.random() < .5:
            op['k'] = dict(parallel=r.choice([True, False]))
        return op

    def scenario(self, seed, tier):
        r = random.Random(seed)
        cfg = copy.deepcopy(SHIPPED)
        faults = r.random() < .4
        hist = []
        n = r.randint(2, 9 if tier == 'quick' else 16)
        while len(hist) < n:
            c = r.random()
            if c < .3:
                cfg = self.newcfg(r, cfg)
                hist.append(dict(cfg=[[*o, d] for o, d in cfg.items()],
                                 style=r.choice([0, r.getrandbits(16)]),
                                 atomic=r.random() < .7))
            elif c < .4:
                hist.append(dict(env=r.choice(['0', '1', None, '0', ''])))
            elif c < .52 and faults:
                hist.append(dict(fault=r.choice(['cut', 'cut', 'cut', 'gone', 'loop', 'bytes',
                                                 'open-read', 'read', 'short']),
                                 at=r.random(), err=r.choice([errno.EIO, errno.EACCES,
                                                              errno.EMFILE]),
                                 first=r.choice([0, 0, 0, 1, 2])))
            else:
                hist.append(self.op(r))
        return dict(seed=r.getrandbits(40), threads=r.choice([2, 3, 4]), ops=hist,
                    mem=r.sample(mem.BYTES, 2))

    def run(self, sc):
        quiet()
        work = os.path.join(os.environ['SSQSIM_WORK'], 'run%d' % os.getpid())
        ov = os.path.join(work, 'ssqueezepy')
        shutil.copytree(os.path.join(os.environ['SIMDISK_OVERLAY'], 'ssqueezepy'), ov)
        disk.set_overlay(work)
        try:
            return self._run(sc, os.path.join(ov, 'configs.ini'))
        finally:
            disk.plan()
            shutil.rmtree(work, ignore_errors=True)

    def _run(self, sc, path):
        parfor.configure(seed=sc['seed'] & 0xffffffff, threads=sc['threads'],
                         mode=parfor.NATIVE)
        mem.fill(sc['mem'][1])
        with open(path, 'rb') as f:
            shipped = f.read()
        cfg, env, fault = copy.deepcopy(SHIPPED), None, None
        steps = []                   # (op, on, explicit, made-by, faulted)
        made = []
        for s in sc['ops']:
            if 'cfg' in s:
                cfg = {(m, o): d for m, o, d in s['cfg']}
                fault = None
            elif 'env' in s:
                env = s['env']
            elif 'fault' in s:
                if not (s['fault'] == 'short' and fault):
                    fault = s
            else:
                on = env != '0' and bool(cfg['configs', 'IS_PARALLEL']['parallel'])
                steps.append((s, on, explicit(s, cfg), fault, cfg))
        want = []
        objs_made = []               # as in the history, if nothing failed
        for s, on, ex, fl, _ in steps:
            m = None
            if s['f'] == 'obj' and objs_made:
                m, on_m = objs_made[s['i'] % len(objs_made)]
            if s['f'] == 'wavelet' and not fl:
                objs_made.append((ex, on))
            job = (m, dict(s, i=0) if s['f'] == 'obj' else ex, on, sc['mem'][0])
            st, v = engine.isolated(alone, job, 60)
            want.append(v if st == 'ok' else ('raise', st, False))
        cur = shipped
        objs, viol, sig, k = [], None, None, 0
        h = hashlib.sha1()
        counts = dict(calls=0, edits=0, environment_changes=0, faults=0, calls_under_fault=0,
                      errors_reported=0)
        changed = False

        def put(b, atomic=False):
            if os.path.islink(path):
                os.unlink(path)
            if atomic:
                with open(path + '.new', 'wb') as f:
                    f.write(b)
                os.replace(path + '.new', path)
            else:
                with open(path, 'wb') as f:
                    f.write(b)

        plan = None
        for i, s in enumerate(sc['ops']):
            if 'cfg' in s:
                disk.plan()
                plan = None
                cur = text({(m, o): d for m, o, d in s['cfg']}, s['style']).encode()
                put(cur, s['atomic'])
                counts['edits'] += 1
                changed = True
                continue
            if 'env' in s:
                if s['env'] is None:
                    os.environ.pop('SSQ_PARALLEL', None)
                else:
                    os.environ['SSQ_PARALLEL'] = s['env']
                counts['environment_changes'] += 1
                changed = True
                continue
            if 'fault' in s:
                fk = s['fault']
                counts['faults'] += 1
                counts['fault: ' + fk] = counts.get('fault: ' + fk, 0) + 1
                changed = True
                plan = None
                if fk == 'cut':
                    e = cur.index(END.encode()) + len(END)
                    put(cur[:int(s['at'] * e)])
                elif fk == 'gone':
                    put(b'')
                    os.unlink(path)
                elif fk == 'loop':
                    put(b'')
                    os.unlink(path)
                    os.symlink(path, path)
                elif fk == 'bytes':
                    b = bytearray(cur)
                    p = int(s['at'] * cur.index(END.encode()))
                    b[p:p] = b'\xff\xfe'
                    put(bytes(b))
                else:
                    plan = (fk, s)
                continue
            op, on, ex, fl, c = steps[k]
            w, k = want[k], k + 1
            if plan:
                fk, q = plan
                if fk == 'short':
                    disk.plan('read', 'configs.ini', 0, 1 << 30, disk.SHORT,
                              1 + int(q['at'] * 200))
                elif fk == 'read':
                    disk.plan('read', 'configs.ini', q['first'], 1 << 30, disk.ERR, errno.EIO)
                else:
                    disk.plan('open-read', 'configs.ini', q['first'], 1 << 30, disk.ERR,
                              q['err'])
            nobj = len(objs)
            got = attempt(op, objs)
            disk.plan()
            if fl:
                del objs[nobj:]          # the model doesn't follow these
            counts['calls'] += 1
            h.update(repr((op['f'], got[0], got[2], cmp.digest(got[1])
                           if got[0] == 'ok' else '')).encode())
            what = f"step {i}, {op['f']} {op.get('w', '')} {op.get('k', '')}"
            if fl:
                counts['calls_under_fault'] += 1
                if got[0] == 'raise' and fl['fault'] != 'short':
                    counts['errors_reported'] += 1
                    continue
                what += f" (fault: {fl['fault']})"
            if op['f'] == 'is_parallel':
                w = ('ok', on, False)
            elif op['f'] == 'threads':
                w = ('ok', 3 if on else 1, False)
            if got[0] == 'raise' and w[0] == 'raise':
                continue
            d = ops.same(op, w[:2], got[:2], cmp)
            off = not on
            if op.get('k', {}).get('parallel') is not None:
                off = not op['k']['parallel']
            if d:
                viol, sig = f"{what}: differs from the call with the defaults given " \
                    f"explicitly: {d}", 'default: ' + op['f']
            elif op['f'] == 'obj':
                continue
            elif got[2] and off:
                viol, sig = f"{what}: ran in parallel, though disabled", 'parallel: ' + op['f']
            elif w[2] and not got[2] and not off:
                viol, sig = f"{what}: did not run in parallel, though enabled", \
                    'serial: ' + op['f']
            if viol:
                break
        hx = h.hexdigest()[:16]
        return dict(viol=viol, sig=sig, hash=hx, counts=counts,
                    key=hx if changed and counts['calls'] else None)

    def shrink(self, sc):
        for keep in ddmin_lists(list(range(len(sc['ops'])))):
            if keep:
                c = copy.deepcopy(sc)
                c['ops'] = [c['ops'][i] for i in keep]
                yield c
        for i, s in enumerate(sc['ops']):
            if s.get('style'):
                c = copy.deepcopy(sc)
                c['ops'][i]['style'] = 0
                yield c
            if 'cfg' in s:
                for j, (m, o, d) in enumerate(s['cfg']):
                    for q in d:
                        if d[q] != SHIPPED[m, o][q]:
                            c = copy.deepcopy(sc)
                            c['ops'][i]['cfg'][j][2][q] = SHIPPED[m, o][q]
                            yield c

    def extra_evidence(self, c):
        return dict(faults_injected={k[7:]: v for k, v in sorted(c.items())
                                     if k.startswith('fault: ')})


PROP = S13()
