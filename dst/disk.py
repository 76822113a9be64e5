"""Histories of processes that share one directory on a simulated disk.

Every verification of a run is a process of its own: it starts from what the
disk holds, type checks for real (nothing is memoised) and ends or crashes.
The seam is the file access of mypy's cache (mypy.metastore and the few files
mypy.build writes itself); time stamps come from the simulated disk clock.
"""

import builtins
import json
import os
import pickle
import random
import shutil
import subprocess

from . import boot
from . import engine as E
from . import history as H
from . import hooks
from . import kernel as K
from . import svc as SV

CACHES = ('.mypy_cache_strict', '.mypy_cache_nonstrict')
T0 = 1_700_000_000


# ------------------------------------------------------------------ file seam

class _Os:
    """The os module, as mypy's cache code sees it."""

    def __init__(self, disk):
        self._d = disk

    def __getattr__(self, n):
        return getattr(os, n)

    def makedirs(self, p, *a, **k):
        if self._d.writing in ('mkdir', 'full'):
            raise OSError(30, 'Read-only file system', p)
        return os.makedirs(p, *a, **k)

    def replace(self, a, b):
        d = self._d
        if d.writing == 'replace':
            raise OSError(13, 'Permission denied', a)
        if d.writing == 'crash_before':
            d.crash('before renaming', b)
        os.replace(a, b)
        d.stamp(b)
        if d.writing == 'crash_after':
            d.crash('after renaming', b)
        d.done.append(b)

    def remove(self, p):
        return os.remove(p)


class _File:
    """A file being written; the disk may fail or the process die half-way."""

    def __init__(self, f, disk, path):
        self.f, self.d, self.p = f, disk, path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def write(self, s):
        d = self.d
        if d.writing in ('write', 'crash_mid'):
            self.f.write(s[:len(s) // 2])
            self.f.flush()
            if d.writing == 'write':
                raise OSError(28, 'No space left on device', self.p)
            d.crash('while writing', self.p)
        return self.f.write(s)


class _Reading:
    def __init__(self, f, disk, kind):
        self.f, self.kind = f, kind

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def read(self, *a):
        s = self.f.read(*a)
        if self.kind == 'short':
            return s[:len(s) // 2]
        if self.kind == 'garbage':
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
        return s


class Disk:
    """Installed in one (forked) process before it type checks."""

    def __init__(self, clock, peer=None, record=False):
        self.clock = clock
        self.writing = None
        self.done = []                  # files completely written, in order
        self.peer = peer or []          # [(op number, [(path, data or None)])]
        self.ops = 0
        self.record = record
        self.log = []

    def install(self):
        import mypy.build
        import mypy.metastore as ms
        ms.open = mypy.build.open = self.open
        ms.os = _Os(self)
        disk = self
        F = ms.FilesystemMetadataStore
        write, getmtime = F.write, F.getmtime

        def w(store, name, data, mtime=None):
            disk.op()
            disk.writing = hooks.fault('store.write')
            try:
                r = write(store, name, data, mtime)
            finally:
                disk.writing = None
            if r and disk.record:
                disk.log.append((os.path.join(store.cache_dir_prefix, name), data))
            return r

        def g(store, name):
            disk.op()
            if hooks.fault('store.stat'):
                raise OSError(5, 'Input/output error', name)
            return getmtime(store, name)
        F.write, F.getmtime = w, g

    def op(self):
        """Between two accesses another process may have changed the cache."""
        self.ops += 1
        while self.peer and self.peer[0][0] <= self.ops:
            _, acts = self.peer.pop(0)
            for p, data in acts:
                self.apply(p, data)

    def apply(self, p, data):
        if data is None:
            shutil.rmtree(p, ignore_errors=True)
            return
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with builtins.open(p + '.peer', 'w') as f:
                f.write(data)
            os.replace(p + '.peer', p)
            self.stamp(p)
        except OSError:
            pass

    def stamp(self, p):
        try:
            os.utime(p, (self.clock, self.clock))
        except OSError:
            pass

    def open(self, p, mode='r', *a, **k):
        if not isinstance(p, str) or '.mypy_cache' not in p:
            return builtins.open(p, mode, *a, **k)
        if mode == 'r':
            self.op()
            kind = hooks.fault('store.read')
            if kind == 'eio':
                raise OSError(5, 'Input/output error', p)
            return _Reading(builtins.open(p, mode, *a, **k), self, kind)
        if mode == 'x' and not os.path.exists(p) and hooks.fault('store.mark'):
            raise OSError(28, 'No space left on device', p)
        if self.writing in ('open', 'full'):
            raise OSError(28, 'No space left on device', p)
        return _File(builtins.open(p, mode, *a, **k), self, p)

    def crash(self, when, path):
        hooks.log('crash', when=when, path=os.path.basename(path).split('.')[0])
        k = K.KERNEL
        K.KERNEL = None
        with builtins.open('crash.mark', 'w') as f:
            json.dump(dict(when=when, n=self.ops, done=self.done, fired=[
                list(x) for x in hooks.WORLD.fired]), f)
        del k
        K.real_exit(9)


# ------------------------------------------------------------------ one process

def process(op, cfg, faults, clock, peer=None, record=False, seed=0, junk=0):
    """Body of one verifying process; the current directory is its own."""
    import mypy.build
    memo = mypy.build.build
    if isinstance(memo, E.Memo):
        memo.enabled = False
    root = os.getcwd()
    keep = [object() for _ in range(junk)]
    d = Disk(clock, peer, record)
    d.install()
    plan = dict(scenario='svc', config=cfg, clients=[[dict(op, op='verify')]], seed=seed,
                policy={'kind': 'serial'}, lines=False, dur=[0.1, 0.1], tick=1e-6,
                shutdown=False, faults=faults)
    s = Proc(plan, [], ())
    s.root = op.get('root', root)
    rep = s.run()
    del keep
    o = H.ops_of(rep['history']).get('0.0')
    js = H.jobs_of(rep['history'])
    return dict(res=clean(o.res, s.root, op['file']) if o is not None and o.res else None,
                exc=o.exc.replace(s.root, '/ROOT') if o is not None and o.exc else None,
                job=H.job_sig(js[0]) if js else None, stuck=rep['stuck'],
                steps=rep['steps'], now=rep['now'], fired=rep['fired'], ops=d.ops,
                log=d.log, done=d.done, built=[h[4] for h in rep['history']
                                               if h[3] == 'construct_failed'])


class Proc(SV.ServiceScenario):
    def do_verify(self, op):
        kw = {}
        if op.get('base_dir'):
            kw['base_dir'] = '%s/%s' % (self.root, op['base_dir'])
        for a in ('counterexample', 'ignore_global'):
            if a in op:
                kw[a] = op[a]
        if op.get('selected'):
            kw['selected'] = set(op['selected'])
        if op.get('viper_args'):
            kw['viper_args'] = list(op['viper_args'])
        path = op['file'] if op.get('relative') else '%s/%s' % (self.root, op['file'])
        return E.norm_result(self.svc.verify(path, **kw).to_dict())


def clean(res, root, main):
    """Without the name of the directory the run happened in.

    Diagnostics give the verified file by its base name; any other relative
    file name means the file relative to the current directory.
    """
    ds = []
    for x in res['diagnostics']:
        x = json.loads(x)
        f = x['file']
        x['file'] = os.path.join(root, main) if f == os.path.basename(main) else os.path.abspath(f)
        ds.append(json.dumps(x, sort_keys=True))
    res = dict(res, diagnostics=sorted(ds))
    return json.loads(json.dumps(res).replace(root, '/ROOT'))


def hash_process(job):
    """The same in a new interpreter with another hash seed."""
    with open('job.json', 'w') as f:
        json.dump(job, f)
    env = dict(os.environ, PYTHONHASHSEED=str(job['hashseed']), DST_PINNED='1')
    try:
        p = subprocess.Popen([boot.PY, boot.VERIF + '/dst/hashproc.py', 'job.json', 'job.out'],
                             env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        end = K.real_monotonic() + 100
        while p.poll() is None:
            K.real_sleep(0.02)
            if K.real_monotonic() > end:
                p.kill()
        with open('job.out', 'rb') as f:
            return pickle.load(f)
    except (OSError, EOFError, pickle.UnpicklingError) as e:
        return {'harness': 'hash process: %r' % e}
    finally:
        for n in ('job.json', 'job.out'):
            if os.path.exists(n):
                os.remove(n)


# ------------------------------------------------------------------ damage

def cache_files(store):
    out = []
    for d, ds, fs in os.walk(store):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def damage(a, done=()):
    """Change leftovers of the cache; returns what was hit."""
    kind, store = a['kind'], CACHES[a.get('store', 0)]
    if kind == 'rmall':
        shutil.rmtree(store, ignore_errors=True)
        return store
    if kind == 'notdir':
        shutil.rmtree(store, ignore_errors=True)
        with open(store, 'w') as f:
            f.write('not a directory')
        return store
    fs = cache_files(store)
    name = a.get('name')
    if name:
        fs = [f for f in fs if os.path.basename(f).startswith(name)]
    if a.get('ext'):
        fs = [f for f in fs if f.endswith(a['ext'])]
    if a.get('recent'):
        fs = [f for f in done if f in fs or os.path.exists(f)] or fs
    if not fs:
        return None
    r = random.Random(a['pick'])
    hit = r.sample(fs, min(len(fs), a.get('count', 1)))
    for f in hit:
        st = os.stat(f)
        if kind == 'delete':
            os.remove(f)
            continue
        if kind == 'dir':
            os.remove(f)
            os.mkdir(f)
            continue
        with open(f, 'rb') as fp:
            b = fp.read()
        b = {'trunc0': b'', 'half': b[:len(b) // 2], 'tail': b[:-1],
             'zeros': b'\0' * len(b), 'binary': b'\xff\xfe\x80' * (len(b) // 3 + 1),
             'text': b'no JSON here', 'list': b'[]', 'null': b'null', 'empty': b'{}'}[kind]
        with open(f, 'wb') as fp:
            fp.write(b)
        if a.get('keep', True):
            os.utime(f, (st.st_mtime, st.st_mtime))
    return [os.path.relpath(f, store) for f in hit]


# ------------------------------------------------------------------ scenario

class DiskScenario:
    """plan: config, files0, script=[step...] (see plans_disk.py)."""

    def __init__(self, plan, programs, hot=()):
        self.plan = plan

    def log(self, kind, **kw):
        self.h.append((len(self.h), float(self.clock - T0), 'disk', kind, kw))

    def run(self):
        p = self.plan
        self.h, self.clock, self.fired = [], T0, []
        self.steps, self.now, self.done = 0, 0.0, []
        root = os.getcwd()
        for n in CACHES:                # a private copy, or none at all
            if os.path.islink(n):
                src = os.readlink(n)
                os.remove(n)
                if not p.get('cold'):
                    shutil.copytree(src, n)
        self.files = {}
        self.write(p['files0'])
        for i, a in enumerate(p['script']):
            getattr(self, 'do_' + a['op'])(i, a, root)
        return dict(history=self.h, steps=self.steps, switches=0, now=self.now, trace=[],
                    fired=self.fired, threads=1, sched='', exit_codes=[], stuck=None,
                    sites={}, fd1=b'')

    def write(self, files):
        for n, t in files.items():
            if t is None:
                self.files.pop(n, None)
                if os.path.exists(n):
                    os.remove(n)
                continue
            self.files[n] = t
            E.write_files({n: t})
            os.utime(n, (self.clock, self.clock))

    def do_write(self, i, a, root):
        self.write(a['files'])
        self.log('wrote', files=sorted(a['files']))

    def do_tick(self, i, a, root):
        self.clock += a['s']
        self.now += abs(a['s'])

    def do_damage(self, i, a, root):
        hit = damage(a, self.done)
        self.log('damage', what=a['kind'], hit=hit)
        self.fired.append(['disk.' + a['kind'], None, True])

    def do_verify(self, i, a, root):
        op = {k: v for k, v in a.items() if k in (
            'file', 'sig', 'base_dir', 'counterexample', 'selected', 'viper_args', 'relative',
            'ignore_global')}
        op['root'] = root
        cfg = self.plan.get('config', {})
        cwd = root
        if a.get('cwd'):
            cwd = root + '/' + a['cwd']
            os.makedirs(cwd, exist_ok=True)
        peer = self.peer(a, op, cfg, cwd) if a.get('peer') else None
        id = '0.%d' % i
        self.log('invoke', id=id, op='verify', arg=dict(a, files=dict(self.files)))
        clock = self.clock
        seed = self.plan.get('seed', 0)
        os.chdir(cwd)
        if a.get('hashseed') is not None:
            r = hash_process(dict(op=op, cfg=cfg, clock=clock, seed=seed,
                                  hashseed=a['hashseed'], junk=a.get('junk', 0)))
            self.fired.append(['hashseed', None, True])
        else:
            r = E.run_child(lambda: process(op, cfg, a.get('faults', []), clock, peer,
                                            seed=seed), timeout=100)
        crash = None
        if os.path.exists('crash.mark'):
            with open('crash.mark') as f:
                crash = json.load(f)
            os.remove('crash.mark')
        os.chdir(root)
        if crash is not None:
            self.done = [os.path.relpath(x, root) if os.path.isabs(x) else x
                         for x in crash['done']]
            self.fired += crash['fired']
            self.log('crashed', id=id, when=crash['when'], n=crash['n'])
            return
        if 'harness' in r:
            raise RuntimeError('step %d: %s %s' % (i, r['harness'], r.get('trace', '')))
        if r['built']:
            raise RuntimeError('no service: %s' % r['built'])
        self.steps += r['steps'] + r['ops']
        self.now += r['now']
        self.done = r['done']
        self.fired += [list(x) for x in r['fired']]
        if peer:
            self.fired.append(['disk.peer', None, True])
        self.log('return', id=id, res=r['res'], exc=r['exc'], job=r['job'], stuck=r['stuck'])

    def peer(self, a, op, cfg, cwd):
        """What another process does to the cache meanwhile, cut into pieces."""
        spec = a['peer']
        r = random.Random(spec['pick'])
        if spec['kind'] == 'rm':
            return [(r.randint(1, spec['ops']), [(n, None) for n in CACHES])]
        d = os.path.dirname(cwd) + '/peer'
        shutil.rmtree(d, ignore_errors=True)
        if cwd == os.getcwd():
            shutil.copytree('.', d)
        else:
            return None
        with_files = dict(spec.get('files', {}))

        def f():
            E.write_files(with_files)
            for n in with_files:
                os.utime(n, (self.clock, self.clock))
            return process(dict(op, root=os.getcwd()), cfg, [], self.clock, record=True)
        rep = E.run_child(f, timeout=100, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        if 'harness' in rep:
            raise RuntimeError('peer: %s %s' % (rep['harness'], rep.get('trace', '')))
        log = rep['log']
        out, k = [], 0
        cuts = sorted(r.randint(1, spec['ops']) for _ in range(r.randint(1, 6)))
        for c in cuts:
            n = r.randint(1, max(1, len(log)))
            out.append((c, log[k:k + n]))
            k += n
        return out


# ------------------------------------------------------------------ reference

class Cold:
    """The answer for given contents from a healthy directory."""

    def __init__(self, solo):
        self.solo = solo

    def get(self, a, cfg):
        op = {k: v for k, v in a.items() if k in (
            'file', 'sig', 'base_dir', 'counterexample', 'selected', 'viper_args',
            'ignore_global')}
        key = json.dumps(['cold', sorted(a['files'].items()), op, sorted(cfg.items(), key=str)],
                         sort_keys=True, default=str)
        s = self.solo
        if key not in s.cache:
            from . import runner as R
            d = E.fresh_dir(s.cwd + '/solo')
            R.copy_cache(s.cwd, d)

            def f():
                E.write_files(a['files'])
                return process(op, cfg, [], T0)
            r = E.run_child(f, cwd=d, timeout=100)
            s.runs += 1
            if 'harness' in r:
                s.broken.append(r)
            shutil.rmtree(d, ignore_errors=True)
            s.cache[key] = r
        return s.cache[key]


# ------------------------------------------------------------------ edits meanwhile

class Watch:
    """Edits project files between two accesses to them."""

    def __init__(self, root, names, edits, files, clock):
        self.names = {os.path.join(root, n): n for n in names}
        self.edits, self.files, self.clock = list(edits), files, clock
        self.n, self.busy = 0, False

    def install(self):
        import sys
        stat, isfile = os.stat, os.path.isfile
        touch = self.touch

        def st(p, *a, **k):
            touch(p)
            return stat(p, *a, **k)
        os.stat = st
        sys.addaudithook(lambda ev, args: touch(args[0]) if ev == 'open' and args else None)

    def touch(self, p):
        if self.busy or type(p) is not str or os.path.abspath(p) not in self.names \
                or K.KERNEL is None:
            return
        self.n += 1
        while self.edits and self.edits[0]['at'] <= self.n:
            self.apply(self.edits.pop(0))

    def apply(self, e):
        self.busy = True
        try:
            self.clock += e.get('tick', 1)
            self.write(e['files'])
            hooks.log('edited', files=dict(self.files), n=self.n)
            hooks.WORLD.fired.append(('edit', None, e.get('how', 'replace')))
        finally:
            self.busy = False

    def write(self, files):
        for n, t in files.items():
            if t is None:
                self.files.pop(n, None)
                if os.path.exists(n):
                    os.remove(n)
                continue
            self.files[n] = t
            E.write_files({n + '.tmp': t})
            os.replace(n + '.tmp', n)
            os.utime(n, (self.clock, self.clock))


class EditScenario(Proc):
    """plan: files0, edits=[dict(at, files)...], clients (see plans_disk.edit_plan)."""

    def setup_fs(self):
        import mypy.build
        if isinstance(mypy.build.build, E.Memo):
            mypy.build.build.enabled = False
        p = self.plan
        self.root = os.getcwd()
        names = set(p['files0'])
        for e in p['edits']:
            names |= set(e['files'])
        for c in p['clients']:
            for a in c:
                names |= set(a.get('files') or ())
        self.watch = Watch(self.root, names, p['edits'], {}, T0)
        self.watch.write(p['files0'])
        self.watch.install()
        Disk(T0).install()

    def client(self, c, ops):
        for i, op in enumerate(ops):
            if op['op'] == 'write':
                self.watch.apply(dict(op, how='between'))
            else:
                super().client(c if i == 0 else '%s+%d' % (c, i), [op])

    def call(self, c, i, op):
        self.k.log('files', files=dict(self.watch.files))
        return super().call(c, i, op)

    def do_verify(self, op):
        return clean(super().do_verify(op), self.root, op['file'])
