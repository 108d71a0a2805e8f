"""A copy of /repo's gaussianfft package for import beside a simulated extension."""
import os
import shutil
import build


def make(dest):
    d = os.path.join(dest, 'pkg')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(build.REPO + '/gaussianfft', d + '/gaussianfft', ignore=shutil.ignore_patterns('__pycache__'))
    v = d + '/gaussianfft/_version.py'
    if not os.path.exists(v):
        with open(v, 'w') as f:
            f.write("__version__ = version = '0.0'\n")
    return d
