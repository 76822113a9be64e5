"""Oracles over histories of a directory and of files edited meanwhile."""

import itertools
import json

from . import disk as D
from . import engine as E
from . import history as H
from .judge import V, ddiff


def r_disk(rep, plan, solo):
    """Every process answers as one in a healthy directory with these files."""
    out = []
    cold = D.Cold(solo)
    ops = H.ops_of([h for h in rep['history'] if h[3] == 'invoke'])
    ends = {h[4]['id']: h[4] for h in rep['history'] if h[3] in ('return', 'crashed')}
    cfg = plan.get('config', {})
    for id, o in ops.items():
        e = ends.get(id)
        if e is None or 'when' in e:
            continue
        want = cold.get(o.arg, cfg)
        if 'harness' in want:
            continue
        what = {k: v for k, v in o.arg.items() if k != 'files'}
        if e['stuck']:
            out.append(V('disk-stuck', 'process %s of %r did not end' % (id, what)))
        elif e['exc'] != want['exc']:
            out.append(V('disk-answer', 'process %s %r raised %s; in a healthy directory: %s' % (
                id, what, e['exc'], want['exc'] or E.brief(want['res'])), 'disk-answer/raised'))
        elif e['res'] != want['res']:
            out.append(V('disk-answer', 'process %s %r answered %s' % (
                id, what, ddiff(e['res'], want['res']))))
        elif e['job'] != want['job']:
            out.append(V('disk-program', 'process %s %r handed another program to the backend: '
                         '%s / %s' % (id, what, diff(e['job'], want['job']), '')))
    return out


def diff(a, b):
    if a is None or b is None:
        return '%r vs %r' % (a and a['sig'], b and b['sig'])
    return '; '.join('%s: %s / %s' % (k, str(a[k])[:150], str(b[k])[:150])
                     for k in a if a[k] != b[k])


def versions(rep, o):
    """Project states during a request, and the contents each file had."""
    states, cur = [], None
    for h in rep['history']:
        if h[3] in ('files', 'edited'):
            cur = h[4]['files']
            if h[0] < o.inv:
                states = [cur]
            elif h[0] < o.end:
                states.append(cur)
    names = sorted({n for s in states for n in s})
    each = [list({json.dumps(s.get(n)): s.get(n) for s in states}.values()) for n in names]
    yield from states
    seen = [json.dumps(s, sort_keys=True) for s in states]
    for c in itertools.islice(itertools.product(*each), 200):
        s = {n: t for n, t in zip(names, c) if t is not None}
        if json.dumps(s, sort_keys=True) not in seen:
            yield s


def gone(rep, o):
    """A failure that names a file which did not exist for a while."""
    ss = list(versions(rep, o))
    names = {n for s in ss for n in s} | {o.arg['file']}
    return o.exc is None and not o.res['success'] and not o.res['cancelled'] and any(
        n.rsplit('/', 1)[-1] in json.loads(d)['message'] for d in o.res['diagnostics']
        for n in names if any(n not in s for s in ss))


def r_edit(rep, plan, solo):
    """Each request is answered for one version of every file."""
    out = []
    cold = D.Cold(solo)
    cfg = plan.get('config', {})
    if rep['stuck']:
        return [V('edit-stuck', 'stuck: %s' % rep['stuck'][:2])]
    jobs = H.jobs_of(rep['history'])
    for id, o in H.ops_of(rep['history']).items():
        if o.op != 'verify':
            continue
        if not o.done and o.exc is None:
            out.append(V('edit-stuck', 'request %s never ended' % id))
            continue
        mine = [H.job_sig(j) for j in jobs if o.inv < j['seq'] < o.end]
        cands, ok, bad = [], gone(rep, o), False
        for s in [] if ok else versions(rep, o):
            if o.arg['file'] not in s:
                continue
            w = cold.get(dict(o.arg, files=s), cfg)
            if 'harness' in w:
                bad = True
                break
            cands.append(w)
            if o.exc == w['exc'] and o.res == w['res'] and (w['job'] is None or w['job'] in mine):
                ok = True
                break
        if ok or bad:
            continue
        what = {k: v for k, v in o.arg.items() if k != 'files'}
        if o.exc is not None:
            out.append(V('edit-answer', 'request %s %r raised %s' % (id, what, o.exc),
                         'edit-answer/raised'))
            continue
        out.append(V('edit-answer', 'request %s %r answered %s; for the %d versions of its files: '
                     '%s' % (id, what, E.brief(o.res), len(cands), ' | '.join(
                         E.brief(w['res']) for w in cands[:4]))))
    return out
