"""Forking, warm parents, memoised type checking, solo answers."""

import gc
import hashlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import sys
import traceback

from . import hooks
from . import kernel as K
from . import layout

CWD = '/proc/self/cwd'          # the same path in every worker
_IMP = re.compile(r'^(?:from|import)\s+(\w+)', re.M)


# ---------------------------------------------------------------------- forking

def run_child(fn, timeout=120.0, cwd=None):
    """Run fn() in a forked child and return its (picklable) value.

    On trouble returns {'harness': reason}; never raises for the child's sake.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            gc.disable()
            if cwd:
                os.chdir(cwd)
            try:
                v = fn()
            except BaseException:
                K.KERNEL = None
                v = {'harness': 'exception', 'trace': traceback.format_exc()}
            K.KERNEL = None
            data = pickle.dumps(v)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            try:
                traceback.print_exc()
            except Exception:
                pass
        finally:
            K.real_exit(0)
    os.close(w)
    end = K.real_monotonic() + timeout
    chunks = []
    ok = True
    while True:
        left = end - K.real_monotonic()
        if left <= 0:
            ok = False
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if not ok:
        return {'harness': 'wall timeout'}
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return {'harness': 'no report (%d bytes)' % sum(map(len, chunks))}


# --------------------------------------------------------- deterministic process

class _Names:
    def __init__(self, rng):
        self.rng = rng

    def __iter__(self):
        return self

    def __next__(self):
        return ''.join(self.rng.choices('abcdefghijklmnopqrstuvwxyz0123456789_', k=8))


RNG = [random.Random('unseeded')]


def install_random():
    """Random sources become functions of RNG (before anything imports them)."""
    import uuid
    os.urandom = lambda n: RNG[0].randbytes(n)
    uuid.uuid4 = lambda: uuid.UUID(int=RNG[0].getrandbits(128), version=4)
    uuid.uuid1 = lambda *a, **k: uuid.UUID(int=RNG[0].getrandbits(128), version=1)


def seed_process(seed):
    """Every random source a run may touch comes from `seed`."""
    import tempfile
    rng = random.Random('proc/%s' % (seed,))
    random.seed(rng.random())
    layout.seed(rng.getrandbits(60))
    RNG[0] = rng
    tempfile._name_sequence = _Names(rng)
    os.makedirs('tmp', exist_ok=True)
    tempfile.tempdir = CWD + '/tmp'


def fresh_dir(path):
    """Empty `path` (a directory below our own scratch directory)."""
    assert '/dst-' in path, path
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def write_files(files):
    for n, t in files.items():
        d = os.path.dirname(n)
        if d:
            os.makedirs(d, exist_ok=True)
        if t == '<dir>':
            os.makedirs(n, exist_ok=True)
        elif isinstance(t, str) and t.startswith('<hex>'):
            with open(n, 'wb') as f:
                f.write(bytes.fromhex(t[5:]))
        else:
            with open(n, 'w') as f:
                f.write(t)


# --------------------------------------------------------- memoised type checking

class Memo:
    """Remembers mypy results by file contents, filled in the warm parent."""

    def __init__(self):
        import mypy.build
        self.real = mypy.build.build
        self.data = {}
        self.recording = False
        self.enabled = True
        self.hits = self.misses = 0
        mypy.build.build = self

    def _key(self, sources, options, fscache=None):
        out = []
        for s in sources:
            try:
                with open(s.path) as f:
                    text = f.read()
                if fscache is not None:
                    text = fscache.read(s.path).decode()
            except (OSError, UnicodeDecodeError, TypeError):
                return None
            out.append((s.path, s.module, s.base_dir, text))
            for m in sorted(set(_IMP.findall(text))):
                p = os.path.join(os.path.dirname(s.path), m + '.py')
                if os.path.exists(p):
                    if fscache is not None:
                        out.append((p, fscache.read(p).decode()))
                        continue
                    with open(p) as f:
                        out.append((p, f.read()))
        o = sorted((k, repr(v)) for k, v in options.snapshot().items() if k != 'cache_dir')
        return hashlib.sha1(repr((out, o)).encode()).hexdigest()

    def __call__(self, sources, options, *a, **kw):
        if K.KERNEL is not None:
            hooks.log('typecheck', prog=str(sources[0].path))
            K.KERNEL.site('typecheck')
            self.fault(sources, options)
        if a or set(kw) - {'fscache'} or not self.enabled:
            return self.real(sources, options, *a, **kw)
        try:
            key = self._key(sources, options, kw.get('fscache'))
        except Exception:
            key = None
        if key in self.data:
            self.hits += 1
            k, v = self.data[key]
            if k == 'raise':
                raise v
            return v
        self.misses += 1
        k = K.KERNEL
        try:
            r = ('ok', self.real(sources, options, **kw))
        except Exception as e:
            r = ('raise', e)
        if self.recording and key is not None:
            self.data[key] = r
        if r[0] == 'raise':
            raise r[1]
        return r[1]

    def fault(self, sources, options):
        f = hooks.fault('mypy', str(sources[0].path))
        if f == 'internal':
            # what mypy does about an exception inside it
            import mypy.errors
            try:
                raise KeyError('simulated failure inside mypy')
            except KeyError as e:
                mypy.errors.report_internal_error(
                    e, sources[0].path, 1, mypy.errors.Errors(options), options)
        elif f == 'os':
            raise OSError(28, 'No space left on device')
        elif f:
            raise MemoryError('out of memory')

    def warm(self, path, base_dir=None):
        """Type check `path` in the warm parent (errors are kept too)."""
        import mypy.build
        from nagini_translation.lib.typeinfo import TypeInfo
        keep = {k: v for k, v in vars(mypy.build).items()}
        self.recording = True
        import contextlib
        import io
        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                TypeInfo().check(path, base_dir)
        except Exception:
            pass
        finally:
            self.recording = False
            for k, v in keep.items():
                setattr(mypy.build, k, v)


class SilMemo:
    """Remembers parsed built-in resources by text (the stub parser is slow)."""

    def __init__(self):
        from . import silparse
        self.real = silparse.program
        self.data = {}
        self.recording = False
        silparse.program = self

    def __call__(self, text, path):
        key = hashlib.sha1((text + '\0' + path).encode()).hexdigest()
        if key in self.data:
            return self.data[key]
        p = self.real(text, path)
        if self.recording:
            self.data[key] = p
        return p


# ------------------------------------------------------------------ normal forms

def norm_result(d):
    """A result dict without timing, diagnostics as a sorted list."""
    d = dict(d)
    d.pop('duration', None)
    d.pop('viperProgram', None)
    d['diagnostics'] = sorted(json.dumps(x, sort_keys=True) for x in d['diagnostics'])
    return d


def brief(d):
    """For messages."""
    if d is None:
        return 'nothing'
    fl = ''.join(k[0].upper() for k in ('success', 'translationFailed', 'cancelled')
                 if d.get(k))
    ds = []
    for x in d['diagnostics']:
        x = json.loads(x) if isinstance(x, str) else x
        ds.append('%s:%s %s' % (os.path.basename(str(x['file'])), x['startLine'], x['code']))
    return '%s[%s]' % (fl or '-', ', '.join(ds))


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]
