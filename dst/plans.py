"""Seeded generation of workloads, schedules and faults (swarm style)."""

import random

from . import corpus as CO
from . import programs as PG


def loguni(r, lo, hi):
    return lo * (hi / lo) ** r.random()


# ------------------------------------------------------------------- schedules

def policy(r, steps=20000):
    """A scheduling policy; `steps` is roughly the length of a run."""
    k = r.random()
    if k < 0.15:
        return dict(kind='serial')
    if k < 0.30:
        return dict(kind='serial', delays=r.randint(1, 6), dmax=loguni(r, 0.1, 30),
                    horizon=steps)
    if k < 0.65:
        return dict(kind='random', p=loguni(r, 0.005, 0.4), pline=loguni(r, 1e-4, 0.02),
                    delays=r.choice([0, 0, 1, 3]), dmax=loguni(r, 0.1, 30), horizon=steps)
    return dict(kind='pct', d=r.randint(1, 12), horizon=steps,
                delays=r.choice([0, 0, 1, 2]), dmax=loguni(r, 0.1, 30))


def durations(r):
    lo = loguni(r, 0.001, 1.0)
    return [lo, lo * loguni(r, 1, 100)]


def base(r, **kw):
    d = dict(scenario='svc', seed=r.randrange(1 << 48), dur=durations(r), tick=1e-4)
    d.update(kw)
    return d


# --------------------------------------------------------------- program pools

FAIL = [11, 12, 15, 19]


def pool_general(r, n=8, base_idx=0, kinds=FAIL, helpers=False):
    """Programs of all sorts: passing, failing, rejected; distinct signatures."""
    out = []
    for i in range(n):
        idx = base_idx + i
        if i == 0:
            p = PG.make(r, idx, 'ok', [], oblig=False, pieces=1)
        elif i == 1:
            p = PG.make(r, idx, 'ok', [11], oblig=True, pieces=0)
        elif i == 2:
            p = PG.make(r, idx, r.choice(['type', 'type_any', 'syntax']), [11], pieces=0)
        elif i == 3:
            p = PG.make(r, idx, 'invalid', [11], pieces=0)
        elif i == 4:
            p = PG.make(r, idx, 'ok', [12, 15], oblig=False, pieces=0)
        elif i == 5 and helpers:
            p = PG.make(r, idx, 'ok', [r.choice(kinds)], helper=True, pieces=0)
        else:
            p = PG.make(r, idx, 'ok', r.sample(kinds, r.randint(1, 2)),
                        oblig=r.random() < 0.3, pieces=r.randint(0, 1))
        out.append(p)
    return out


def pool_config(r, n=7, base_idx=0):
    """Programs whose answer depends on every option."""
    mk = PG.make
    out = [mk(r, base_idx, 'ok', [12, 13], pieces=0),
           mk(r, base_idx + 1, 'ok', [14], pieces=0),
           mk(r, base_idx + 2, 'ok', [17], pieces=0),
           mk(r, base_idx + 3, 'ok', [], pieces=0, spec=[('branch', 11)]),
           mk(r, base_idx + 4, 'ok', [], pieces=1),
           mk(r, base_idx + 5, 'ok', [16], oblig=True, pieces=0),
           mk(r, base_idx + 6, 'invalid', [], pieces=0)]
    return out[:n]


# ------------------------------------------------------------------ operations

def variants(p, n=2):
    """A few option sets per program (fixed per program, so references are shared)."""
    r = random.Random('variants/%s/%s' % (p.sig, p.name))
    out = [{}]
    if p.kind == 'corpus':
        n = 4
        out += [{'viper_args': ['--simfuzz=%d' % r.randrange(10 ** 6)]} for _ in range(2)]
    while len(out) < n:
        op = {}
        k = r.random()
        if p.kind == 'corpus' and k >= 0.25:
            op['viper_args'] = ['--simfuzz=%d' % r.randrange(10 ** 6)]
            if r.random() < 0.3:
                op['counterexample'] = True
        elif p.methods and k < 0.35:
            op['selected'] = sorted(r.sample(p.methods, r.randint(1, min(2, len(p.methods)))))
        elif k < 0.6:
            op['counterexample'] = True
        else:
            op['viper_args'] = [r.choice(['--simfail', '--simlow', '--timeout=60'])]
        if r.random() < 0.2:
            op['include_viper'] = True
        if r.random() < 0.2:
            op['ignore_global'] = True
        if op not in out:
            out.append(op)
    return out


def verify_op(r, p, rich=0.4, tokens=None):
    op = dict(op='verify', file=p.name, sig=p.sig)
    op.update(r.choice(variants(p)[1:]) if r.random() < rich else {})
    if tokens is not None and r.random() < 0.5:
        op['token'] = r.choice(tokens)
    return op


def stagger(r):
    return dict(op='sleep', s=round(loguni(r, 0.001, 10.0), 4))


def clients(r, progs, n=(2, 4), ops=(1, 2), rich=0.4, tokens=None, weights=None):
    out = []
    for c in range(r.randint(*n)):
        ops_ = []
        if r.random() < 0.5:
            ops_.append(stagger(r))
        for _ in range(r.randint(*ops)):
            ops_.append(verify_op(r, r.choices(progs, weights)[0], rich, tokens))
            if r.random() < 0.15:
                ops_.append(stagger(r))
        out.append(ops_)
    return out


RUN_FAULTS = ['server.submit', 'server.full', 'job.crash', 'job.timeout']
PRE_FAULTS = ['ast.oom', 'mypy']        # before the backend is reached
DIRECT_FAULTS = ['direct.init', 'direct.crash', 'direct.timeout']


def run_fault(r, progs, sites):
    p = r.choice(progs)
    s = r.choice(sites)
    if s == 'ast.oom':
        return dict(site=s, nth=int(loguni(r, 20, 12000)), kind=r.choice(['java', 'py']))
    if s == 'mypy':
        return dict(site=s, prog=p.name, nth=1,
                    kind=r.choice(['internal', 'internal', 'os', 'mem']))
    if s.startswith('direct'):
        return dict(site=s, nth=r.randint(1, 3))
    return dict(site=s, prog=p.name, nth=r.randint(1, 2))


ALL_OPTIONS = dict(verifier_backend=['silicon', 'carbon'], int_bitops_size=[8, 16],
                   float_encoding=[None, 'real', 'ieee32'], sif=[False, False, 'true'],
                   use_viper_server=[True, True, False],
                   disable_branch_conditions=[False, True],
                   z3_path=['/sim/z3', '/sim/other-z3'], boogie_path=['/sim/boogie', '/sim/b2'],
                   viper_jar_path=['/sim/other.jar'], mypy_path=[None])


def options(r, n=(1, 3), names=None):
    names = names or [k for k in ALL_OPTIONS if k not in ('viper_jar_path', 'mypy_path')]
    ks = r.sample(names, r.randint(*n))
    return {k: r.choice(ALL_OPTIONS[k]) for k in ks}


def config(r, p=0.5):
    """A start-up configuration."""
    return options(r, (1, 2)) if r.random() < p else {}


def count(cl):
    return sum(1 for c in cl for o in c if o['op'] == 'verify')


def some_faults(r, progs, sites, n=(1, 3)):
    return [run_fault(r, progs, sites) for _ in range(r.randint(*n))]


def pool_corpus(r, n=8, base_idx=0):
    """Programs of the repository's tests, one generated program among them."""
    out = CO.pool(r, n - 1, base_idx)
    return out + [PG.make(r, base_idx + n - 1, 'ok', [11, 15], oblig=True, pieces=0)]


def corpus_config(r, progs):
    """Information-flow programs run under an information-flow encoding."""
    return {'sif': r.choice(['true', 'true', 'poss', 'prob'])} \
        if getattr(progs[0], 'sif', None) else {}


def pool_mixed(r, n=8, base_idx=0, odd=2):
    """General programs, a time-out program and files that are not programs."""
    out = pool_general(r, n - odd - 1, base_idx)
    out[5 % len(out)] = PG.twins(r, base_idx + 5 % len(out))
    out.append(PG.make(r, base_idx + n - odd - 1, 'ok', [11, 18], pieces=0))
    for i, k in enumerate(r.sample(PG.ODD, odd)):
        out.append(PG.odd(k, base_idx + n - odd + i))
    return out
