"""Base of K01-K05: a call with multi-threading off is the reference for the same
call with multi-threading on, run by the simulated threading layer under a seeded
schedule. One run = one call, one schedule."""
import copy
import os
import random
import numpy as np
from sim import parfor, cmp, mem
from sim.engine import Prop, ddmin_lists

OVERALL_STEPS = dict(quick=40000, thorough=200000)


def gen_sched(r, step, tier):
    th = r.choice([2, 2, 2, 3, 3, 4, 5, 6, 8, 12, 16]) if step else \
        r.choice([1, 2, 2, 3, 4, 5, 7, 8, 13, 16])
    s = dict(threads=th, mode=parfor.STEP if step else parfor.NATIVE,
             seed=r.getrandbits(40), ndiv=0)
    k = r.random()
    if k < .25:
        s['ndiv'] = r.randint(2, 3 * th)
    elif k < .4:
        s['ndiv'] = r.choice([64, 200, 1000])
    if step:
        s['policy'] = r.choice([parfor.UNIFORM, parfor.UNIFORM, parfor.PCT,
                                parfor.BURST])
        s['p16'] = int(65536 * 10 ** r.uniform(-3, -.3))
        s['pct_depth'] = r.randint(1, 12)
        s['pct_len'] = int(10 ** r.uniform(1.5, 4.5))
        s['max_steps'] = OVERALL_STEPS[tier]
    return s


class KProp(Prop):
    RUNS = dict(quick=4000, thorough=400000)
    CAP = dict(quick=40, thorough=1500)
    PYFFTW = 'none'
    P_STEP = .55
    SIMTIME = ('none: the code under test reads no clock here; simulated progress '
               'is counted in compiled-kernel machine instructions')
    RULE = ('distinct (operation, schedule history hash) pairs in which at least '
            'two chunks of one parallel region ran; the hash covers the division '
            'of the work, the order and owner of chunks and every preemption '
            '(instruction, from, to)')
    STUB = ["numba's threading layer (thread pool, work division, thread ids): "
            "replaced by sim/vsched.c", "PyFFTW: absent (scipy.fft is used)"]
    ASSUME = [
        "preemption points are x86 instructions of the compiled kernels; stores "
        "are sequentially consistent (one OS thread executes all), so weak-memory "
        "effects between cores are not explored",
        "with a large input chunks run unpreempted, in a seeded order",
        "the reference is the same call with SSQ_PARALLEL=0, plus a NumPy model "
        "where the operation has a simple one"]
    OPS = {}                  # name -> (weight, gen(r, big, tier), make(p, rng))
    TOL_SSQ = ()              # ops compared tolerating adjacent-bin rounding

    def scenario(self, seed, tier):
        r = random.Random(seed)
        names = sorted(self.OPS)
        op = r.choices(names, [self.OPS[n][0] for n in names])[0]
        step = r.random() < self.P_STEP
        p = self.OPS[op][1](r, not step and r.random() < .35, tier)
        sc = dict(op=op, p=p, dseed=r.getrandbits(32), sched=gen_sched(r, step, tier))
        sc['mem'] = r.sample(mem.BYTES, 2)
        if step and r.random() < .3:
            sc['sched']['skip'] = r.choice([1, 2, 3, 5, 10, 30])
        return sc

    def warm(self):
        out = []
        seen = set()
        for i in range(4000):
            sc = self.scenario(10 ** 9 + i, 'quick')
            sc['sched'] = dict(threads=2, seed=1)
            k = (sc['op'], *sorted((a, b) for a, b in sc['p'].items()
                                   if isinstance(b, (str, bool))))
            if k not in seen:
                seen.add(k)
                out.append(sc)
        # fewer, larger jobs: a child's compilations are shared by its jobs
        out.sort(key=lambda s: (s['op'], str(s['p'].get('prec')), str(s['p'])))
        n = 16
        per = -(-len(out) // n)
        return [(lambda ss: lambda: [self._quiet(s) for s in ss])(out[i:i + per])
                for i in range(0, len(out), per)]

    def _quiet(self, sc):
        try:
            self.run(sc)
        except Exception:
            pass

    def model(self, sc, f):
        """Independent expected value, or None."""
        return None

    def extra_tol(self, sc):
        return 0

    def compare(self, sc, ref, out):
        tol = (2e-5 + self.extra_tol(sc) if sc['p'].get('prec') == 'single' else None)
        if sc['op'] in self.TOL_SSQ:
            fr, fo = cmp.flat(ref), cmp.flat(out)
            if len(fr) != len(fo):
                return f"{len(fo)} values returned, expected {len(fr)}"
            for k, ((n, a), (_, b)) in enumerate(zip(fr, fo)):
                d = (cmp.diff_ssq if k == 0 else cmp.diff1)(a, b, tol)
                if d:
                    return f"{n}: {d}"
            return None
        return cmp.diff(ref, out, tol)

    def run(self, sc):
        make = self.OPS[sc['op']][2]
        rng = lambda: np.random.default_rng(sc['dseed'])
        os.environ.pop('SSQ_PARALLEL', None)
        f = make(sc['p'], rng())

        def attempt(par):
            os.environ['SSQ_PARALLEL'] = '0' if not par else '1'
            try:
                with np.errstate(all='ignore'):
                    return f(par)
            except Exception as e:
                return f"raised {type(e).__name__}: {e}"[:300]
        parfor.configure()
        mem.fill(sc['mem'][0])
        ref = attempt(False)
        ref_regions = parfor.stats()['regions']
        s = dict(sc['sched'])
        if 'trace' in sc:
            s.update(trace=sc['trace'], plan=sc['plan'])
        parfor.configure(**s)
        mem.fill(sc['mem'][1])
        out = attempt(True)
        st = parfor.stats()
        trace, plan = parfor.recorded()
        parfor.configure()
        mem.fill(None)
        viol = sig = None
        cf = getattr(f, 'cmp', None)
        d = cf(ref, out) if cf else self.compare(sc, ref, out)
        if d:
            sig = sc['op'] + '.' * ('how' in sc['p']) + sc['p'].get('how', '') + (
                ':differs' if not isinstance(out, str) else ':' + out[:50])
            viol = (f"{sc['op']} with {sc['sched']['threads']} simulated threads "
                    f"differs from the serial result: {d}; input {sc['p']}")
        elif not isinstance(ref, str):
            m = getattr(f, 'expect', None)
            if m is not None:
                with np.errstate(all='ignore'):
                    exp = m()
                d = cf(exp, out) if cf else cmp.diff(exp, out, getattr(f, 'mtol', None))
                if d:
                    sig = sc['op'] + ':model'
                    viol = (f"{sc['op']} with {sc['sched']['threads']} simulated "
                            f"threads differs from the model: {d}; input {sc['p']}")
        rec = sc
        if viol:
            rec = copy.deepcopy(sc)
            rec.update(trace=list(trace), plan=list(plan))
        multi = st['chunks'] > st['regions'] > 0
        counts = dict(
            parallel_regions=st['regions'], chunks=st['chunks'],
            kernel_instructions=st['kernel_instructions'],
            preemptions=st['switches'], budget_exhausted=st['fast_forwards'],
            runs_stepped=int(st['kernel_instructions'] > 0),
            runs_chunk_level=int(st['kernel_instructions'] == 0 and multi),
            runs_without_parallelism=int(not multi),
            runs_poisoned=1, runs_raising=int(isinstance(ref, str)))
        if isinstance(ref, str) and os.environ.get('SSQSIM_DEBUG'):
            print(sc['op'], sc['p'], ref)
        counts['op_' + sc['op']] = 1
        h = cmp.digest([ref, out]) + '-%x' % st['hash']
        return dict(viol=viol, sig=sig, hash=h, sc=rec, counts=counts,
                    key=(f"{sc['op']}-{st['hash']:x}" if multi else None))

    def shrink(self, sc):
        base = {k: copy.deepcopy(v) for k, v in sc.items()
                if k not in ('trace', 'plan')}
        s = base['sched']
        if s['threads'] > 2:
            for t in (2, s['threads'] // 2, s['threads'] - 1):
                c = copy.deepcopy(base)
                c['sched']['threads'] = t
                yield c
        if s['ndiv']:
            c = copy.deepcopy(base)
            c['sched']['ndiv'] = 0
            yield c
        if s.get('skip'):
            c = copy.deepcopy(base)
            c['sched']['skip'] = 0
            yield c
        for k, v in sorted(base['p'].items()):
            if isinstance(v, int) and not isinstance(v, bool) and v > 1:
                for nv in {max(1, v // 2), v - 1 - v // 8, v - 1}:
                    if nv < v:
                        for extra in range(3):
                            c = copy.deepcopy(base)
                            c['p'][k] = nv
                            c['sched']['seed'] += extra
                            yield c
        if 'trace' in sc:
            tr = sc['trace']
            pairs = [tr[i:i + 2] for i in range(0, len(tr), 2)]
            if len(pairs) <= 4000:
                for cand in ddmin_lists(pairs):
                    c = copy.deepcopy(base)
                    c['trace'] = [x for q in cand for x in q]
                    c['plan'] = sc['plan']
                    yield c

    def extra_evidence(self, c):
        return dict(
            faults_injected={'garbage in uninitialised memory (runs)': c.get('runs_poisoned', 0),
                             'preemption at a kernel instruction': c.get('preemptions', 0),
                             'permuted chunk order (regions)': c.get('parallel_regions', 0)})


def cplx(rng, shape, prec):
    x = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    return x.astype('complex64' if prec == 'single' else 'complex128')


def real(rng, shape, prec):
    return rng.standard_normal(shape).astype('float32' if prec == 'single'
                                             else 'float64')


def signal(rng, shape, prec, kind='chirp'):
    n = shape[-1]
    t = np.linspace(0, 1, n)
    x = np.cos(2 * np.pi * (.05 * n * t + .1 * n * t ** 2)) + \
        .5 * np.cos(2 * np.pi * .02 * n * t)
    x = x + .05 * rng.standard_normal(shape)
    return x.astype('float32' if prec == 'single' else 'float64')
