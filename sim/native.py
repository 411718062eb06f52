"""Builds the simulator's native parts and the overlay of the package's data."""
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))


def build_all(outdir):
    libs = {}
    for name, extra in (('vsched', []), ('simdisk', ['-ldl', '-lpthread']), ('simmem', [])):
        so = os.path.join(outdir, name + '.so')
        subprocess.run(['gcc', '-O2', '-fno-omit-frame-pointer', '-shared', '-fPIC',
                        '-o', so, os.path.join(HERE, name + '.c'), *extra],
                       check=True)
        libs[name] = so
    return libs


def make_overlay(repo, ov):
    """Copies everything of the package but code: what it reads and writes as
    data is redirected here (see simdisk.c), so /repo is never written."""
    pkg = os.path.join(repo, 'ssqueezepy')
    for d, dirs, files in os.walk(pkg):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        o = os.path.join(ov, os.path.relpath(d, repo))
        os.makedirs(o, exist_ok=True)
        for f in files:
            if not f.endswith(('.py', '.pyc', '.so')):
                shutil.copy2(os.path.join(d, f), os.path.join(o, f))
