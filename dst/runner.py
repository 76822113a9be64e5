"""Warm workers, one forked process per simulated run, minimiser, evidence."""

import collections
import json
import os
import pickle
import random
import shutil
import signal
import sys
import time as _t

from . import boot
from . import engine as E
from . import kernel as K
from . import plans_mcp as PM
from . import solo as SO

NPOOL = 8
VERIF = boot.VERIF


class Env:
    """A warm process: programs of one pool, memoised type checking, solo cache."""

    def __init__(self, prop, seed, pool, base, memo, hot):
        self.prop, self.seed, self.pool = prop, seed, pool
        self.base, self.memo, self.hot = base, memo, hot
        self.solo = SO.Solo(base, hot)

    def load_pool(self, programs=None):
        if programs is None:
            r = random.Random('pool/%s/%s/%s' % (self.prop.id, self.seed, self.pool))
            programs = self.prop.pool(r, self.pool)
        self.programs = programs
        os.chdir(self.base)
        if not self.prop.memoise:
            return
        for p in programs:
            for files in getattr(p, 'versions', []) + [p.files]:
                E.write_files(files)
                self.memo.warm(E.CWD + '/' + p.name)
        for p in programs:
            for d, n in PM.warm_places(p):
                E.write_files({d + '/' + n: p.files[p.name]})
                self.memo.warm('%s/%s/%s' % (E.CWD, d, n), '%s/%s' % (E.CWD, d))
        for cfg in self.prop.base_dirs:
            for p in programs:
                self.memo.warm(E.CWD + '/' + p.name, cfg)
        import gc
        gc.collect()
        gc.freeze()

    def plan(self, i):
        r = random.Random('run/%s/%s/%s' % (self.prop.id, self.seed, i))
        return self.prop.plan(r, self.programs)

    def run(self, plan, name='run'):
        prop = self.prop

        def f():
            return prop.scenario(plan)(plan, self.programs, self.hot).run()
        return E.run_child(f, timeout=prop.child_timeout, cwd=SO.rundir(self.base, name))

    def judge(self, rep, plan):
        return self.prop.judge(rep, plan, self.programs, self.solo)


def base_warm(base):
    """Fill the type checker's cache once; every worker gets a copy."""
    from . import programs as PG
    import logging
    logging.disable(logging.CRITICAL)
    os.chdir(base)
    memo = E.Memo()
    sil = E.SilMemo()
    p = PG.make(random.Random(0), 99, 'ok', [11], oblig=True, pieces=0, name='warm.py')
    E.write_files(p.files)
    memo.warm(E.CWD + '/' + p.name)
    sil.recording = True
    from nagini_translation.main import load_sil_files
    from nagini_translation.lib.jvmaccess import JVM
    from . import jvm
    try:
        j = JVM('x')
        for bits in (8, 16):
            for fo in (None, 'real', 'ieee32'):
                load_sil_files(j, bits, False, fo)
    except Exception:
        pass
    finally:
        sil.recording = False
        jvm.reset_globals()
    return memo


def copy_cache(src, dst):
    for n in ('.mypy_cache_strict', '.mypy_cache_nonstrict'):
        if os.path.isdir(src + '/' + n):
            shutil.copytree(src + '/' + n, dst + '/' + n)


def scratch():
    import subprocess
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 1 << 30:
                p = '%s/dst-%d-%d' % (d, os.getpid(), int(K.real_time() * 1000) % 10 ** 9)
                os.mkdir(p)
                return p
        except OSError:
            continue
    raise SystemExit('no scratch space')


# --------------------------------------------------------------------- workers

def record(st, rep, plan):
    st['runs'] += 1
    st['steps'] += rep['steps']
    st['switches'] += rep['switches']
    st['sim'] += rep['now']
    st['threads'][rep['threads']] += 1
    for f in rep['fired']:
        k = f[0] if f[2] is True else '%s=%s' % (f[0], f[2])
        st['faults'][k] += 1
    for kind in {h[3] for h in rep['history']}:
        st['kinds'][kind] += 1
    for h in rep['history']:
        if h[3] == 'invoke':
            st['ops'][h[4]['op']] += 1
    nd = sum(1 for t in rep['trace'] if t[2] == 'delay')
    if nd:
        st['faults']['delay'] += nd
    st['sched'].add(rep['sched'])
    hd = E.digest([(h[2], h[3], {k: v for k, v in h[4].items() if k not in ('fp',)})
                   for h in rep['history']])
    if rep['switches'] >= 2 or rep['fired'] or nd or \
            sum(h[3] == 'invoke' for h in rep['history']) >= 4:
        st['distinct'].add(hd)


def new_stats():
    return dict(runs=0, steps=0, switches=0, sim=0.0, threads=collections.Counter(),
                faults=collections.Counter(), kinds=collections.Counter(),
                ops=collections.Counter(), sched=set(), distinct=set(), harness=[],
                samples=[], known=collections.Counter(), unreproduced=[], solo=0,
                deterministic=[0, 0], redo=None)


def worker(w, prop, seed, tier, base, memo, hot, out, stop, deadline, nruns, known):
    d = '%s/w%d' % (base, w)
    os.mkdir(d)
    copy_cache(base, d)
    env = Env(prop, seed, w, d, memo, hot)
    env.load_pool()
    per_pool = prop.per_pool
    st = new_stats()
    found = None
    i = w
    while i < nruns:
        if K.real_monotonic() > deadline or os.path.exists(stop):
            break
        pool = (i // (NPOOL * per_pool)) * NPOOL + w
        if pool != env.pool:
            st['solo'] += env.solo.runs
            env = Env(prop, seed, pool, d, memo, hot)
            env.load_pool()
        plan = env.plan(i)
        rep = env.run(plan)
        if 'harness' in rep:
            st['harness'].append((i, rep['harness'], rep.get('trace', '')[-2500:]))
            i += NPOOL
            continue
        record(st, rep, plan)
        if st['runs'] <= 1:
            st['samples'].append(sample(i, plan, rep))
        if st['runs'] == 2:
            again = env.run(plan)
            st['deterministic'][0] += 1
            if 'harness' not in again and digest(again) == digest(rep):
                st['deterministic'][1] += 1
        vs = env.judge(rep, plan)
        new = []
        for v in vs:
            k = match_known(known, v)
            if k is not None:
                st['known'][k] += 1
            else:
                new.append(v)
        if new:
            if os.environ.get('DST_ALL'):
                st['unreproduced'].append((i, new[0]['sig'], new[0]['msg'][:600]))
                i += NPOOL
                continue
            f = minimise(env, i, plan, rep, new[0], known,
                         K.real_monotonic() + (25 if tier == 'quick' else 120))
            if f is not None:
                found = f
                open(stop, 'w').close()
                break
            st['unreproduced'].append((i, new[0]['sig'], new[0]['msg'][:300]))
        i += NPOOL
    st['solo'] += env.solo.runs
    st['harness'] += [('solo', b['harness'], b.get('trace', '')[-800:]) for b in env.solo.broken]
    with open(out + '.tmp', 'wb') as f:
        pickle.dump((st, found), f)
    os.rename(out + '.tmp', out)


def digest(rep):
    return E.digest([[(h[1], h[2], h[3], {k: v for k, v in h[4].items() if k != 'fp'})
                      for h in rep['history']],
                     rep['steps'], rep['switches'], rep['now'], rep['stuck']])


def sample(i, plan, rep):
    ev = []
    for seq, now, th, kind, kw in rep['history'][:60]:
        ev.append('%.4f %s %s %s' % (now, th, kind, json.dumps(kw, default=str)[:160]))
    return dict(run=i, plan=json.loads(json.dumps(plan, default=str)), events=ev,
                steps=rep['steps'], switches=rep['switches'], simulated_s=rep['now'])


def match_known(known, v):
    import re
    for k in known:
        if k.get('status') == 'open' and re.search(k['match'], v['sig'] + ' ' + v['msg']):
            return k['id']
    return None


# ------------------------------------------------------------------- minimiser

def minimise(env, i, plan, rep, viol, known, deadline):
    """Smaller plan and trace with the same violated rule, or None."""
    rule = viol['rule']
    tries = [0]

    def test(p):
        if K.real_monotonic() > deadline and tries[0] > 3:
            return None
        tries[0] += 1
        r = env.run(p)
        if 'harness' in r:
            return None
        for v in env.judge(r, p):
            if v['rule'] == rule and match_known(known, v) is None:
                return r, v
        return None

    best = dict(plan, trace=rep['trace'])
    got = test(best)
    if got is None:
        best = plan
        got = test(best)
        if got is None:
            return None
    rep, viol = got

    def attempt(p):
        nonlocal best, rep, viol
        g = test(p)
        if g is None:
            return False
        best, (rep, viol) = p, g
        return True

    # coarse: no switches at all, no line sites
    if 'trace' in best and best['trace']:
        attempt(dict(best, trace=[]))
    # operations, faults and settings
    changed = True
    while changed and K.real_monotonic() < deadline:
        changed = False
        for p in env.prop.shrink(best):
            if K.real_monotonic() > deadline:
                break
            if attempt(p):
                changed = True
                break
    # schedule decisions
    if best.get('trace'):
        n = 2
        while K.real_monotonic() < deadline and best['trace']:
            tr = best['trace']
            size = max(1, len(tr) // n)
            hit = False
            for a in range(0, len(tr), size):
                if K.real_monotonic() > deadline:
                    break
                if attempt(dict(best, trace=tr[:a] + tr[a + size:])):
                    hit = True
                    break
            if hit:
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(tr), n * 2)
    return dict(run=i, pool=env.pool, plan=best, violation=dict(viol), digest=digest(rep), tries=tries[0],
                history=[('%.6f' % h[1], h[2], h[3], {k: v for k, v in h[4].items()
                                                      if k != 'fp'})
                         for h in rep['history']],
                fired=rep['fired'], switches=rep['switches'])


def shrink_lists(plan):
    """Generic candidates: drop clients, operations, faults; simplify settings."""
    for key in ('clients', 'faults', 'epilogue', 'script'):
        l = plan.get(key) or []
        for a in range(len(l)):
            yield dict(plan, **{key: l[:a] + l[a + 1:]})
    for c, ops in enumerate(plan.get('clients', ())):
        for a in range(len(ops)):
            n = [list(x) for x in plan['clients']]
            del n[c][a]
            yield dict(plan, clients=n)
    for c, ops in enumerate(plan.get('clients', ())):
        for a, op in enumerate(ops):
            for k in ('viper_args', 'counterexample', 'selected', 'include_viper',
                      'ignore_global', 'token'):
                if k in op:
                    n = [list(x) for x in plan['clients']]
                    n[c][a] = {x: y for x, y in op.items() if x != k}
                    yield dict(plan, clients=n)


# ------------------------------------------------------------------------ main

def load_known(prop_id):
    try:
        with open(VERIF + '/known-findings.json') as f:
            return [k for k in json.load(f)['findings'] if k['property'] == prop_id]
    except FileNotFoundError:
        return []


def run_check(prop, tier, seed, nruns=None):
    t0 = K.real_monotonic()
    budget = {'quick': 240.0, 'thorough': 3000.0}[tier]
    if os.environ.get('DST_BUDGET'):
        budget = float(os.environ['DST_BUDGET'])
    n = nruns or prop.runs[tier]
    known = load_known(prop.id)
    base = scratch()
    try:
        memo = base_warm(base)
        hot = boot.hot_code()
        warm = K.real_monotonic() - t0
        stop = base + '/stop'
        deadline = t0 + budget
        pids = []
        for w in range(NPOOL):
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    worker(w, prop, seed, tier, base, memo, hot, '%s/out%d' % (base, w),
                           stop, deadline, n, known)
                except BaseException:
                    import traceback
                    with open('%s/err%d' % (base, w), 'w') as f:
                        traceback.print_exc(file=f)
                    code = 1
                K.real_exit(code)
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        st, found, errs = new_stats(), [], []
        for w in range(NPOOL):
            e = '%s/err%d' % (base, w)
            if os.path.exists(e):
                errs.append(open(e).read())
            o = '%s/out%d' % (base, w)
            if not os.path.exists(o):
                continue
            s, f = pickle.load(open(o, 'rb'))
            merge(st, s)
            if f is not None:
                programs = pool_files(prop, seed, f['pool'])
                found.append((f, f['pool'], programs))
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)
    wall = K.real_monotonic() - t0
    found.sort(key=lambda x: x[0]['run'])
    code = 0
    paths = []
    for f, w, programs in found[:1]:
        p = write_replay(prop, tier, seed, w, programs, f)
        paths.append(p)
        print('violated rule: %s' % f['violation']['rule'])
        print(f['violation']['msg'])
        print('run %d, pool %d; %d runs to minimise; %d scheduling decisions, %d faults left'
              % (f['run'], w, f['tries'], len(f['plan'].get('trace', ())), len(f['fired'])))
        print('VIOLATION property=%s replay=%s' % (prop.id, p))
        code = 1
    for k in known:
        if k.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (prop.id, k['what']))
    bad = len(st['harness'])
    if code == 0 and (errs or st['runs'] == 0 or bad > 0.2 * (st['runs'] + bad)):
        code = 2
    for e in errs[:2]:
        print(e, file=sys.stderr)
    for h in st['harness'][:3]:
        print('harness: run %s: %s %s' % h, file=sys.stderr)
    for u in st['unreproduced'][:400 if os.environ.get('DST_ALL') else 3]:
        print('unreproduced: run %s: %s %s' % tuple(u), file=sys.stderr)
    evidence(prop, tier, seed, st, wall, warm, len(found), errs)
    print('%s %s: %d runs, %d distinct histories, %.0f s simulated, %.1f s wall, %d harness '
          'errors, %d solo runs' % (prop.id, tier, st['runs'], len(st['distinct']), st['sim'],
                                    wall, bad, st['solo']))
    return code


def pool_files(prop, seed, w):
    r = random.Random('pool/%s/%s/%s' % (prop.id, seed, w))
    return prop.pool(r, w)


def merge(a, b):
    for k in a:
        if isinstance(a[k], collections.Counter):
            a[k].update(b[k])
        elif isinstance(a[k], set):
            a[k] |= b[k]
        elif k == 'deterministic':
            a[k] = [x + y for x, y in zip(a[k], b[k])]
        elif isinstance(a[k], list):
            a[k] += b[k]
        elif isinstance(a[k], (int, float)):
            a[k] += b[k]


def write_replay(prop, tier, seed, w, programs, f):
    d = VERIF + '/replays'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s-%s-%d.json' % (d, prop.id, f['digest'][:8], f['run'])
    with open(p, 'w') as fp:
        json.dump(dict(
            property=prop.id, tier=tier, seed=seed, run=f['run'], pool=w,
            violation=f['violation'], digest=f['digest'], plan=f['plan'],
            fired=f['fired'], history=f['history'],
            programs=[vars(x) for x in programs],
            how='%s/check %s --replay %s' % (VERIF, prop.id, p)), fp, indent=1, default=str)
    return p


def replay(prop, path):
    """Run a replay file in a fresh process; exit 1 if it reproduces."""
    from . import programs as PG
    with open(path) as f:
        d = json.load(f)
    base = scratch()
    try:
        memo = base_warm(base)
        env = Env(prop, d['seed'], d['pool'], base, memo, boot.hot_code())
        ps = []
        for x in d['programs']:
            q = PG.Program.__new__(PG.Program)
            q.__dict__.update(x)
            q.markers = [tuple(m) for m in x['markers']]
            ps.append(q)
        env.load_pool(ps)
        plan = d['plan']
        if 'trace' in plan:
            plan['trace'] = [tuple(t) for t in plan['trace']]
        rep = env.run(plan)
        if 'harness' in rep:
            print(rep['harness'], rep.get('trace'))
            return 2
        vs = env.judge(rep, plan)
        for h in rep['history']:
            print('%10.4f %-12s %-14s %s' % (h[1], h[2], h[3], str(
                {k: v for k, v in h[4].items() if k != 'fp'})[:300]))
        for v in vs:
            print('violated:', v['rule'], v['msg'])
        same = digest(rep) == d['digest']
        print('history %s the recorded one' % ('equals' if same else 'DIFFERS from'))
        if any(v['rule'] == d['violation']['rule'] for v in vs):
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
            return 1
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)


def evidence(prop, tier, seed, st, wall, warm, nviol, errs):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    run_wall = max(wall - warm, 0.1)
    ev = dict(
        property=prop.id, tier=tier, seed=seed, level=prop.level,
        coverage=dict(
            evaluations=st['runs'], distinct_nontrivial=len(st['distinct']),
            rule=prop.rule,
            samples=st['samples'][:3],
            simulated_runs_per_hour=round(3600 * st['runs'] / run_wall),
            simulated_seconds=round(st['sim'], 1),
            scheduling_sites=st['steps'], context_switches=st['switches'],
            distinct_interleavings=len(st['sched']),
            interleaving_measure='hash of the sequence (thread left, its local step, '
                                 'thread entered) of a run',
            faults_injected=dict(st['faults']),
            operations=dict(st['ops']),
            event_kinds_seen_in_runs=dict(st['kinds']),
            threads_per_run={str(k): v for k, v in sorted(st['threads'].items())},
            isolated_reference_runs=st['solo'],
            determinism_reruns=dict(made=st['deterministic'][0],
                                    identical=st['deterministic'][1]),
            harness_errors=len(st['harness']) + len(errs),
            unreproduced_reports=[list(u) for u in st['unreproduced']][:5],
            known_findings_hit=dict(st['known']),
            real_components=prop.real, stub_components=prop.stubs),
        assumptions=prop.assumptions, wall_s=round(wall, 2), violations=nviol)
    with open('%s/evidence/%s.json' % (VERIF, prop.id), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
