#!/opt/venv/bin/python
"""check.py --property ID [--tier quick|thorough] [--seed N]
   check.py --replay FILE

Decides one property by deterministic simulation. Exit 0: it held on everything
explored; exit 1 with `VIOLATION property=<id> replay=<path>`: it did not."""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SSQSIM_REPO', '/repo')
PY = '/opt/venv/bin/python'


def args():
    p = argparse.ArgumentParser()
    p.add_argument('--property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--replay')
    p.add_argument('--runs', type=int)
    p.add_argument('--cap', type=int, help="seconds to search for")
    p.add_argument('--only', type=int, help="run index, for debugging")
    p.add_argument('--setup', action='store_true',
                   help="check that what the simulator needs is there")
    p.add_argument('--stage2', help=argparse.SUPPRESS)
    a = p.parse_args()
    if a.replay:
        a.property = json.load(open(a.replay))['property']
    if not a.property and not a.setup:
        p.error("--property or --replay needed")
    return a


def launch(a):
    """Stage 1: scratch directory, native parts, environment; then stage 2."""
    sys.path.insert(0, VERIF)
    work = tempfile.mkdtemp(prefix='ssqsim.')
    proc = None

    def stop(*_):
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(work, ignore_errors=True)
        os._exit(130)
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, stop)
    try:
        from sim import native
        libs = native.build_all(os.path.join(work))
        ov = os.path.join(work, 'overlay')
        native.make_overlay(REPO, ov)
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(('SSQ_', 'NUMBA_', 'OMP_', 'PYTHON'))}
        env.update(
            PYTHONPATH=REPO, PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=work + '/pyc',
            NUMBA_CACHE_DIR=os.environ.get('SSQSIM_NUMBA_CACHE', work + '/numba'),
            MPLBACKEND='Agg', MPLCONFIGDIR=work + '/mpl', SSQ_GPU='0',
            OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LANG='C.UTF-8',
            LD_PRELOAD=' '.join([libs['simdisk']] + os.environ.get(
                'SSQSIM_PRELOAD', '').split()), SIMDISK_ROOT=REPO, SIMDISK_OVERLAY=ov,
            NUMBA_LOOP_VECTORIZE='0', SSQSIM_WORK=work, SSQSIM_VSCHED=libs['vsched'],
            SSQSIM_MEM=libs['simmem'], GLIBC_TUNABLES='glibc.malloc.tcache_count=0',
            SSQSIM_REPO=REPO)
        cmd = [PY, os.path.abspath(__file__), '--stage2', work,
               '--property', a.property, '--tier', a.tier, '--seed', str(a.seed)]
        if a.replay:
            cmd += ['--replay', os.path.abspath(a.replay)]
        if a.runs:
            cmd += ['--runs', str(a.runs)]
        if a.cap:
            cmd += ['--cap', str(a.cap)]
        if a.only is not None:
            cmd += ['--only', str(a.only)]
        proc = subprocess.Popen(cmd, env=env, cwd=work, start_new_session=True)
        rc = proc.wait()
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    sys.path.insert(0, VERIF)
    from sim import native
    work = tempfile.mkdtemp(prefix='ssqsim.')
    try:
        native.build_all(work)
        subprocess.run([PY, '-c', 'import numba, numpy, scipy'], check=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("ok")


def main():
    a = args()
    if a.setup:
        return setup()
    if not a.stage2:
        rc = launch(a)
        sys.exit(rc if rc >= 0 else 70)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    from sim import runtime
    sys.exit(runtime.main(a, VERIF))


if __name__ == '__main__':
    main()
