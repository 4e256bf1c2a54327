"""Process environment for running the code of /repo inside a check.

Everything the repository writes (fk_eqns/, logs/, LaTex/, CodeGen/) is relative
to the current directory, so every worker process gets a private scratch
directory that looks like the repository's top level, and chdirs into it.
"""
import os, sys, io, shutil, tempfile, atexit, contextlib, time, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch = None
real_sleep = time.sleep
real_stdout = sys.stdout


def setup():
    """chdir to a scratch directory and make the repository importable."""
    global _scratch
    if _scratch:
        return _scratch
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    _scratch = tempfile.mkdtemp(prefix='ikbtv_')
    atexit.register(cleanup)
    with open(os.path.join(_scratch, '.pid'), 'w') as f:
        f.write(str(os.getpid()))
    fresh(_scratch)
    os.chdir(_scratch)
    time.sleep = lambda s: None       # comp_detect sleeps 2 s per round for human readers
    return _scratch


def fresh(d):
    """(re)create the directories the code writes to."""
    for sub in ('CodeGen/Python', 'CodeGen/Cpp', 'LaTex', 'fk_eqns', 'logs'):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    src = os.path.join(REPO, 'LaTex')
    for f in os.listdir(src):
        if f.endswith('.tex'):
            shutil.copy(os.path.join(src, f), os.path.join(d, 'LaTex', f))


def cleanup():
    global _scratch
    if _scratch and os.path.basename(_scratch).startswith('ikbtv_'):
        os.chdir('/')
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)

    def isatty(self):
        return False


@contextlib.contextmanager
def quiet():
    """Swallow what the repository prints (it prints a lot)."""
    old = sys.stdout
    sys.stdout = _Sink()
    try:
        yield
    finally:
        sys.stdout = old


@contextlib.contextmanager
def captured():
    old = sys.stdout
    sys.stdout = buf = io.StringIO()
    try:
        yield buf
    finally:
        sys.stdout = old
