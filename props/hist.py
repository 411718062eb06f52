"""Histories of public calls: running them, and each call alone in a new session."""
import copy
import json
import random
from sim import cmp, engine, mem, parfor
from sim.engine import Prop, ddmin_lists
from . import ops


def quiet():
    import builtins
    import sys
    import warnings
    warnings.simplefilter('ignore')
    builtins.print = lambda *a, **k: (
        type(sys.stdout).__name__ == 'StringIO' and
        sys.stdout.write(' '.join(map(str, a)) + '\n'))


def settings_after(hist):
    """The settings a history leaves: what a new session has to be given."""
    st = {}
    mode = None
    for op in hist:
        # a wavelet stays in the mode it was made in
        for w in ops.refs(op):
            st.setdefault(('made', w), mode)
        if op['f'] == 'env':
            mode = op['a'][0]
        if op['f'] in ops.SETTINGS:
            st[op['f']] = op
        elif op['f'] == 'setN':
            st['setN', op['a'][0]['$w']] = op
    return st


def alone(job):
    """The call in a new session with the same settings."""
    ctx, st, op = job
    mem.fill(ctx['mem'][0])
    env = ops.Env(ctx)
    for k in sorted(k for k in st if k[0] == 'made'):
        ops.attempt(dict(f='env', a=[st[k]]), env)
        env.w(k[1])
    ops.attempt(dict(f='env', a=[None]), env)
    for k, s in sorted(st.items(), key=str):
        if k[0] != 'made':
            ops.attempt(s, env)
    return ops.attempt(op, env)


def pristine(ctx, hist, op, timeout=60, memo={}):
    """Must be called from a process that has called nothing yet."""
    used = ops.refs(op)
    job = (ctx, {k: v for k, v in settings_after(hist).items()
                 if isinstance(k, str) or k[1] in used}, op)
    key = json.dumps([sorted(map(str, job[1].items())), op, ctx], sort_keys=True)
    if key not in memo:
        st, v = engine.isolated(alone, job, timeout)
        memo[key] = v if st == 'ok' else ('raise', f'process {st}')
    return memo[key]


# kinds of calls for which something is remembered, or might be
REMEMBER = dict(cwt=8, ssq_cwt=5, stft=3, ssq_stft=3, istft=2, icwt=2, method=4, resolution=3,
                scales=4, adm=3, ssqueeze=2, padding=1, experimental=2, buffers=1, fft=1,
                ridges=1, gmwx=1, issq_cwt=1, kernels=1, phase=1, windows=1)


# options without which a call means something else: documented to give the
# previous result again
FIXED = {'.Psih': {'scale'}}


def mutate(r, g, op):
    """The call with one thing different."""
    op = copy.deepcopy(op)
    spots = []

    def walk(v):
        for q in (v if isinstance(v, dict) else range(len(v))):
            x = v[q]
            if isinstance(x, dict) and ('$w' in x or '$s' in x or '$x' in x):
                spots.append((v, q))
            elif isinstance(x, (dict, list)):
                walk(x)
    walk(op)
    c = r.random()
    if c < .1:
        return op
    if c < .65 and spots:
        v, q = r.choice(spots)
        (t, x), = v[q].items()
        if t == '$w':
            v[q] = {'$w': 1 - x if x < 2 and r.random() < .7 else r.randrange(3)}
        elif t == '$s' and r.random() < .4:
            v[q] = {'$x': dict(g.ctx['arrays'][x], tweak=r.random())}
        elif t == '$s':
            v[q] = {'$s': 1 - x if x < 2 else x}
        elif r.random() < .3:
            v[q] = {t: dict(x, tweak=r.random())}
        else:
            y = dict(x, seed=x['seed'] + 1)
            if r.random() < .3 and x.get('dtype') in ('float32', 'float64'):
                y['dtype'] = 'float32' if x['dtype'] == 'float64' else 'float64'
            v[q] = {t: y}
        return op
    k = op.setdefault('k', {})
    drop = sorted(set(k) - FIXED.get(op['f'], set()))
    if c < .75 and drop:
        del k[r.choice(drop)]
        return op
    for _ in range(40):
        new = g.op(REMEMBER)
        if new['f'] == op['f']:
            for q in r.sample(sorted(new.get('k', {})), min(2, len(new.get('k', {})))):
                k[q] = new['k'][q]
            break
    return op


def gen_twins(r, g, n):
    """Calls that differ from one another in little."""
    hist = [g.op(REMEMBER)]
    while len(hist) < n:
        c = r.random()
        if c < .1:
            hist.append(g.g_setN())
        elif c < .2 and g.with_settings:
            hist.append(g.g_setting())
        else:
            hist.append(mutate(r, g, r.choice([op for op in hist if op['f'] not in
                                               ops.SETTINGS + ('setN',)])))
    return hist


def gen_hist(r, g, n):
    if r.random() < .5:
        return gen_twins(r, g, min(n, 5))
    hist = []
    while len(hist) < n:
        if hist and r.random() < .3:
            # again, or again with one option changed
            op = dict(r.choice(hist))
            new = g.op()
            tries = 0
            while new['f'] != op['f'] and tries < 30:
                new, tries = g.op(), tries + 1
            if new['f'] == op['f'] and r.random() < .7:
                k = dict(op.get('k', {}))
                for q, v in new.get('k', {}).items():
                    if r.random() < .4:
                        k[q] = v
                op['k'] = k
                if r.random() < .3:
                    op['a'] = new['a']
            hist.append(op)
        else:
            hist.append(g.op())
    return hist


class HistProp(Prop):
    RUNS = dict(quick=3000, thorough=300000)
    CAP = dict(quick=45, thorough=1800)
    PYFFTW = 'stub'
    REAL = ['all of ssqueezepy on CPU, compiled kernels included']
    STUB = ["numba's threading layer (sim/vsched.c)",
            'pyfftw (sim/simfftw.py, numpy transforms and a simulated planner)']
    NWARM = 260

    def threads(self, sc):
        parfor.configure(seed=sc['seed'] & 0xffffffff, threads=sc['threads'],
                         mode=parfor.NATIVE)
        mem.fill(sc['ctx']['mem'][1])

    def warm_ops(self):
        r = random.Random(77)
        out = []
        while len(out) < self.NWARM:
            ctx = ops.context(r)
            g = ops.Gen(r, ctx)
            for _ in range(4):
                op = g.op()
                if op['f'] not in ops.SETTINGS:
                    out.append((ctx, op))
        return out

    def warm(self):
        allops = self.warm_ops()
        n = 2 * engine.NPROC
        order = sorted(range(len(allops)), key=lambda i: allops[i][1]['f'])
        # calls of a kind go to one process, so as to compile things once
        parts = [order[len(order) * j // n:len(order) * (j + 1) // n] for j in range(n)]

        def job(part):
            def f():
                import os
                quiet()
                parfor.configure(threads=2)
                for par in ('1', '0'):
                    os.environ['SSQ_PARALLEL'] = par
                    for i in part:
                        ctx, op = allops[i]
                        ops.attempt(op, ops.Env(ctx))
                os.environ.pop('SSQ_PARALLEL')
            return f
        return [job(p) for p in parts]

    def shrink_ops(self, sc, key='ops', least=0, also=None):
        for keep in ddmin_lists(list(range(len(sc[key])))):
            if len(keep) >= least:
                c = copy.deepcopy(sc)
                c[key] = [c[key][i] for i in keep]
                if also:
                    c[also] = [c[also][i] for i in keep]
                yield c
        if sc.get('threads', 1) > 1:
            c = copy.deepcopy(sc)
            c['threads'] = 1
            yield c
        for i, op in enumerate(sc[key]):
            for k in set(op.get('k', {})) - FIXED.get(op['f'], set()):
                c = copy.deepcopy(sc)
                del c[key][i]['k'][k]
                yield c
