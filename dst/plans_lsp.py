"""Workloads for the language server."""

from . import plans as P
from . import programs as PG


def pool(r, n=5, base_idx=0):
    """Programs with a second version each."""
    out = []
    for i in range(n):
        idx = base_idx + i
        if i == 3:
            p = PG.make(r, idx, r.choice(['type', 'syntax', 'invalid', 'type_any']), [11],
                        pieces=0)
        elif i == 4:
            p = PG.make(r, idx, 'ok', [], pieces=1)
        else:
            p = PG.make(r, idx, 'ok', r.sample(P.FAIL, r.randint(1, 2)), pieces=0,
                        oblig=r.random() < 0.2)
        q = PG.make(r, idx, r.choice(['ok', 'ok', 'ok', 'type', 'invalid']),
                    r.choice([[11], [19], [11, 12], []]), pieces=r.randint(0, 1), name=p.name)
        p.versions = [q.files]
        p.vmethods = q.methods
        out.append(p)
    return out


def editing(r, progs, n=(2, 6), nfiles=2, weights=None):
    """A script: opening, editing, saving, commands, waiting for phases."""
    fs = r.sample(progs, min(nfiles, len(progs)))
    ver = {p.name: 0 for p in fs}
    ops = []
    opened = set()
    for _ in range(r.randint(*n)):
        p = r.choice(fs)
        if p.name not in opened:
            opened.add(p.name)
            ops.append(dict(op='open', file=p.name))
        else:
            k = r.random()
            if k < 0.45:
                ver[p.name] ^= 1
                ops.append(dict(op='write', files=([p.files] + p.versions)[ver[p.name]]))
                ops.append(dict(op='save', file=p.name))
            elif k < 0.6:
                ops.append(dict(op='save', file=p.name))
            else:
                ms = p.vmethods if ver[p.name] else p.methods
                ops.append(dict(op='command', file=p.name, selected=r.choice(ms)))
        k = r.random()
        if k < 0.45:
            ops.append(dict(op='until', kind=r.choice(['typecheck', 'server.verify', 'job.done']),
                            where=dict(prog=p.name), n=r.randint(1, 2), s=40.0))
        elif k < 0.65:
            ops.append(P.stagger(r))
        elif k < 0.7:
            ops.append(dict(op='until', kind='publish', where=dict(file=p.name), s=60.0))
    return ops


def lines_of(progs):
    return {p.name: sorted({m[2] - 1 for m in p.markers})[:3] for p in progs if p.markers}


def lsp_plan(r, progs, **kw):
    d = P.base(r, scenario='lsp')
    d['script'] = editing(r, progs, **kw)
    d['settle'] = 600.0
    d['finish'] = r.choice(['exit', 'exit', 'eof'])
    init = {}
    if r.random() < 0.2:
        init['counterexamples'] = r.random() < 0.5
    if r.random() < 0.15:
        init['verifier'] = 'carbon'
    if r.random() < 0.1:
        init['useViperServer'] = False
    if r.random() < 0.1:
        init['disableBranchConditions'] = True
    d['init'] = init or None
    if r.random() < 0.2:
        d['argv'] = r.choice([['--no-counterexamples'], ['--disable-branch-conditions'],
                              ['--log', 'DEBUG']])
        if '--disable-branch-conditions' in d['argv']:
            d['init'] = dict(d['init'] or {}, disableBranchConditions=True)
    if r.random() < 0.15:
        d['chunks'] = r.choice([7, 60, 400])
    d['policy'] = P.policy(r, 9000 * len(d['script']))
    return d
