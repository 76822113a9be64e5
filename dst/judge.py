"""Oracles over the history of a service scenario."""

import json
import re
from collections import Counter

from . import engine as E
from . import history as H
from . import svc as SV

FAULTS_ON_RUN = ('server.submit', 'server.full', 'job.crash', 'job.timeout',
                 'direct.init', 'direct.crash', 'direct.timeout')


class V(dict):
    """A violation: rule, message, signature."""

    def __init__(self, rule, msg, sig=None):
        super().__init__(rule=rule, msg=msg, sig=sig or rule)


def dloc(diags):
    out = Counter()
    for x in diags:
        x = json.loads(x)
        out[(x['file'].rsplit('/', 1)[-1], x['startLine'])] += 1
    return out


def ddiff(a, b):
    """Readable difference between two result dicts."""
    if a is None or b is None:
        return '%s vs %s' % (E.brief(a), E.brief(b))
    s = '%s, alone %s' % (E.brief(a), E.brief(b))
    if E.brief(a) == E.brief(b):
        for x, y in zip(a['diagnostics'], b['diagnostics']):
            if x != y:
                x, y = json.loads(x), json.loads(y)
                s += '; field ' + ', '.join('%s: %r / %r' % (k, x.get(k), y.get(k))
                                            for k in x if x.get(k) != y.get(k))
                break
        for k in a:
            if k != 'diagnostics' and a[k] != b.get(k):
                s += '; %s: %r / %r' % (k, a[k], b.get(k))
    return s[:700]


class View:
    """Everything the rules need about one run."""

    def __init__(self, rep, plan, programs, solo):
        self.rep, self.plan, self.solo = rep, plan, solo
        self.h = rep['history']
        self.progs = {p.name: p for p in programs}
        self.ops = H.ops_of(self.h)
        self.cfg0 = dict(SV.BASE_CFG, **plan.get('config', {}))
        self.tl = H.timeline(self.h, self.ops, self.cfg0)
        self.jobs = H.jobs_of(self.h)
        self.verifies = [o for o in self.ops.values() if o.op == 'verify']
        self.fired = [tuple(x) for x in rep['fired']]
        self.built = any(h[3] == 'constructed' for h in self.h)
        self.off = next((h[0] for h in self.h if h[3] == 'faults_off'), float('inf'))
        self.sigs = {p.sig: p.name for p in programs}

    def cands(self, o):
        return H.candidates(self.tl, o.inv, o.end)

    def answers(self, o):
        return [(c, self.solo.get(self.progs[o.arg['file']], o.arg, c))
                for c in self.cands(o)]

    def cancel_overlaps(self, o):
        """Cancel or shutdown calls during the request that may stop it."""
        tok = o.arg.get('token')
        out = []
        for c in self.ops.values():
            if c.inv > o.end or c.end < o.inv:
                continue
            if c.op == 'shutdown':
                out.append(c)
            elif c.op == 'cancel' and (c.arg.get('token') is None
                                       or c.arg.get('token') == tok):
                out.append(c)
        return out

    def jobs_for(self, o):
        """Backend runs made for this request (same thread, inside its span)."""
        th = next(h[2] for h in self.h if h[0] == o.inv)
        return [j for j in self.jobs if o.inv < j['seq'] < o.end and j['thread'] == th]

    def struck(self, o):
        """Faults that fired on this request itself."""
        out = []
        th = next(h[2] for h in self.h if h[0] == o.inv)
        mine = {j['job'] for j in self.jobs_for(o)}
        for seq, now, t, kind, kw in self.h:
            if kind == 'typecheck' and o.inv < seq < o.end and t == th:
                out = [x for x in out if x[0] != 'mypy']    # type checked again after all
            elif kind == 'fault' and o.inv < seq < o.end and t == th \
                    and not kw['site'].startswith('job.'):
                out.append((kw['site'], kw['kind_']))
            elif kind in ('job.crashed', 'job.timeout', 'job.stalled') and kw['job'] in mine \
                    and o.inv < seq < o.end:
                out.append((kind, True))
        return out


CANCELLED = 'cancelled'
FAILED = 'failed'


def shape(r):
    if r is None:
        return 'none'
    if r['success']:
        return 'success'
    if r['cancelled']:
        return CANCELLED
    return FAILED


# ---------------------------------------------------------------------- rules

def r_answer(v, skip_struck=True, rule='answer'):
    """Each untouched request answers exactly as it does alone."""
    out = []
    for o in v.verifies:
        if not o.done:
            continue
        if skip_struck and [s for s in v.struck(o)
                            if s[0] not in ('server.start', 'job.stalled')]:
            continue
        ans = v.answers(o)
        if any('harness' in a for _, a in ans):
            continue
        if v.cancel_overlaps(o) and o.exc is None and (
                shape(o.res) == CANCELLED or
                (any(c.op == 'shutdown' for c in v.cancel_overlaps(o))
                 and shape(o.res) == FAILED)):
            continue
        if o.exc is not None:
            if any(a['exc'] == o.exc for _, a in ans):
                continue
            out.append(V(rule, 'request %r raised %s; alone: %s' % (
                o, o.exc, E.brief(ans[0][1]['res'])), '%s/raised' % rule))
            continue
        if any(a['res'] == o.res for _, a in ans):
            continue
        a0 = ans[0][1]
        out.append(V(rule, 'request %r answered %s%s' % (
            o, ddiff(o.res, a0['res']),
            '' if len(ans) == 1 else ' (under %d possible configurations)' % len(ans))))
    return out


def r_reported(v, o):
    """The answer shows exactly the places at which the backend found errors."""
    js = v.jobs_for(o)
    if shape(o.res) != FAILED or len(js) != 1 or v.struck(o) or v.cancel_overlaps(o):
        return []
    want = {tuple(x) for x in js[0]['errs']}
    got = set()
    for x in o.res['diagnostics']:
        x = json.loads(x)
        if x['code'] == 'TimeoutOccurred':
            continue
        got.add((x['file'].rsplit('/', 1)[-1], x['startLine'], x['startCol']))
    if got == want:
        return []
    return [V('lost-error', 'request %r: the backend found errors at %s, the answer has %s (%s)' % (
        o, sorted(want - got)[:5], sorted(got - want)[:5], E.brief(o.res)[:200]),
        'lost-error/places')]


def r_truth(v):
    """No false success, no lost or invented error (ground truth by markers)."""
    out = []
    for o in v.verifies:
        if not o.done or o.exc is not None:
            continue
        p = v.progs[o.arg['file']]
        out += r_reported(v, o)
        if p.kind == 'odd' or (p.kind != 'ok' and o.arg.get('selected')):
            continue                    # a selection may leave out the ill-formed part
        truths = [[]] if p.kind == 'corpus' else []     # no truth: the backend's word counts
        for c in v.cands(o) if p.kind != 'corpus' else ():
            ob = None
            truths.append(p.truth(dict(
                backend=c['verifier_backend'], bits=c['int_bitops_size'],
                float=c['float_encoding'], args=o.arg.get('viper_args'), oblig=ob,
                selected=o.arg.get('selected'))))
        if o.res['success']:
            if all(t is None or t for t in truths):
                out.append(V('false-success', 'request %r reported success; expected '
                             'errors at %s' % (o, sorted(truths[0] or ['translation']))))
            if v.struck(o) and all(s[0] not in ('server.start', 'job.stalled')
                                   for s in v.struck(o)):
                out.append(V('false-success', 'request %r reported success although %s '
                             'struck it' % (o, v.struck(o)), 'false-success/fault'))
            js = v.jobs_for(o)
            good = [j for j in js if p.sig in j['sig'] and j['nerr'] == 0 and
                    j['how'] in ('job.done', None)]
            if not good and not [j for j in js if o.arg.get('selected')]:
                out.append(V('false-success', 'request %r reported success but no backend '
                             'run accepted its program' % o, 'false-success/norun'))
        elif shape(o.res) == FAILED and not v.struck(o) and not o.res['translationFailed'] \
                and not v.cancel_overlaps(o):
            got = dloc(o.res['diagnostics'])
            if not any(t is not None and not Counter(
                    x for x in t if x[0] != 'timeout') - got for t in truths):
                out.append(V('lost-error', 'request %r reports errors at %s; expected %s' % (
                    o, sorted(got), sorted(truths[0] or []))))
        if shape(o.res) == FAILED and not o.res['diagnostics']:
            out.append(V('empty-failure', 'request %r failed without any diagnostic' % o))
        if shape(o.res) == CANCELLED and o.res['diagnostics']:
            out.append(V('cancelled-shape', 'request %r cancelled with diagnostics' % o))
    return out


def r_job(v, rule='program'):
    """The backend was given the program and command line of an isolated run."""
    out = []
    for o in v.verifies:
        if not o.done:
            continue
        js = v.jobs_for(o)
        if not js:
            continue
        ans = [a for _, a in v.answers(o)]
        if any('harness' in a for a in ans):
            continue
        for j in js[:1]:
            s = H.job_sig(j)
            if any(a['job'] == s for a in ans):
                continue
            w = ans[0]['job'] or {}
            diff = {k: (s[k], w.get(k)) for k in s if s[k] != w.get(k)}
            out.append(V(rule, 'request %r gave the backend something else than alone: %s' % (
                o, str(diff)[:500]), '%s/%s' % (rule, ','.join(sorted(diff)))))
    return out


def r_consistent(v):
    """Answer and backend run belong to one and the same configuration."""
    out = []
    for o in v.verifies:
        if not o.done or o.exc is not None or v.cancel_overlaps(o):
            continue
        if [s for s in v.struck(o) if s[0] != 'server.start']:
            continue
        ans = v.answers(o)
        if any('harness' in a for _, a in ans):
            continue
        js = v.jobs_for(o)
        ok = [c for c, a in ans if a['res'] == o.res and
              (not js or a['job'] == H.job_sig(js[0]))]
        if ok:
            continue
        j = H.job_sig(js[0]) if js else {}
        a0 = ans[0][1]
        diff = {k: (j[k], (a0['job'] or {}).get(k)) for k in j
                if j[k] != (a0['job'] or {}).get(k)}
        out.append(V('mixed-config', 'request %r ran under no single configuration in '
                     'effect during it (%d candidates): answer %s; backend run differs in %s'
                     % (o, len(ans), ddiff(o.res, a0['res']), str(diff)[:400])))
    return out


def r_escape(v):
    """verify() returns a structured result whatever happens."""
    out = []
    for o in v.verifies:
        if o.exc is not None:
            out.append(V('escape', 'request %r raised %s (at %s)' % (o, o.exc, o.at),
                         'escape/%s@%s' % (o.exc.split(':')[0], o.at)))
    return out


def r_fault_shape(v):
    """A struck request says that it failed, or was cancelled if someone did."""
    out = []
    for o in v.verifies:
        if not o.done or o.exc is not None:
            continue
        st = [s for s in v.struck(o) if s[0] not in ('server.start', 'job.stalled')]
        if not st:
            continue
        sh = shape(o.res)
        if sh == 'success':
            out.append(V('fault-shape', 'request %r succeeded although struck by %s' % (o, st)))
        elif sh == CANCELLED and not v.cancel_overlaps(o):
            out.append(V('fault-cancelled', 'request %r struck by %s is reported as cancelled, '
                         'but nobody cancelled it' % (o, st)))
        elif sh == FAILED and not o.res['diagnostics']:
            out.append(V('empty-failure', 'request %r struck by %s failed without any '
                         'diagnostic' % (o, st)))
    return out


def r_live(v, also=()):
    out = []
    if v.rep['stuck']:
        pend = [o for o in v.ops.values() if not o.done]
        if v.rep['stuck'][0] == 'SimLimit' and 'step' in v.rep['stuck'][1]:
            out.append(V('livelock', 'step bound exceeded; pending: %s' % pend[:4]))
        else:
            st = {h[4].get('job') for h in v.h if h[3] == 'job.stalled'}
            out.append(V('hang', 'requests never end: %s (blocked: %s; stalled jobs: %s)' % (
                pend[:4], v.rep['stuck'][2][:6], sorted(st))))
    return out


def r_epilogue(v):
    """Requests made after the faults stopped are answered normally."""
    keep = v.verifies
    v.verifies = [o for o in keep if o.inv > v.off]
    try:
        return r_answer(v, rule='after-faults') + r_escape(v)
    finally:
        v.verifies = keep


def r_spurious_cancel(v):
    out = []
    for o in v.verifies:
        if o.done and o.exc is None and o.res['cancelled'] and not v.cancel_overlaps(o):
            out.append(V('spurious-cancel', 'request %r reported as cancelled, but no '
                         'cancellation or shutdown overlapped it' % o))
    return out


def r_cancel_effective(v):
    """A cancelled, running backend-server verification stops and says so."""
    out = []
    for o in v.verifies:
        if not o.done or o.exc is not None:
            continue
        if [s for s in v.struck(o) if s[0] not in ('job.stalled',)]:
            continue
        if any(h[3] == 'fault' and h[4]['site'] in ('server.interrupt', 'server.start')
               for h in v.h):
            continue
        js = [j for j in v.jobs_for(o)]
        if any(j['job'] is None for j in js):
            continue                    # direct backend: cancel is a documented no-op
        if not all(c['use_viper_server'] and not c['sif'] for c in v.cands(o)):
            continue
        if o.arg.get('arp'):
            continue
        for c in v.cancel_overlaps(o):
            if c.op != 'cancel' or not c.done or c.exc is not None:
                continue
            if c.inv < o.inv or c.end > o.end:
                continue                # racing with the request's own start or end
            # the run was over before the cancellation was complete
            if any(j['end'] is not None and j['how'] == 'job.done' and j['end'] < c.end
                   for j in js):
                continue
            if o.res['translationFailed']:
                continue
            started = v.first_progress(o)
            if started is None or c.inv < started:
                continue
            if shape(o.res) != CANCELLED:
                out.append(V('lost-cancel', 'request %r was cancelled by %r while running '
                             'but answered %s' % (o, c, E.brief(o.res)),
                             'lost-cancel'))
                break
    return out


def _first_progress(v, o):
    """Sequence number after which the request is surely registered."""
    th = next(h[2] for h in v.h if h[0] == o.inv)
    for h in v.h:
        if h[3] in ('typecheck', 'server.verify') and o.inv < h[0] < o.end and h[2] == th:
            return h[0]
    return None


View.first_progress = _first_progress


def r_reconfigure(v):
    """Reported effective configurations are the ones in effect."""
    out = []
    for o in v.ops.values():
        if not o.done:
            continue
        if o.op == 'reconfigure' and o.exc is None:
            want = [c for lo, hi, c in v.tl if lo == o.inv]
            want = want or H.candidates(v.tl, o.inv, o.inv + 0.5)
            cs = want
        elif o.op == 'options' and o.exc is None:
            cs = H.candidates(v.tl, o.inv, o.end)
        else:
            continue
        for k, name in H.PUBLIC.items():
            got = o.res.get(k, '?')
            if not any(_same(got, c[name]) for c in cs):
                out.append(V('reported-config', '%r returned %s=%r; in effect: %r' % (
                    o, k, got, [c[name] for c in cs]), 'reported-config/%s' % k))
                break
    return out


def _same(a, b):
    return a == b or (not a and not b)


def r_not_held_up(v):
    """Everything but the stalled requests ends before the mark (1000 s later)."""
    out = []
    mark = next((h[0] for h in v.h if h[3] == 'mark'), None)
    if mark is None:
        if v.rep['stuck']:
            return r_live(v)
        return out
    stalled = {h[4]['prog'] for h in v.h if h[3] == 'job.stalled' and h[0] < mark}
    for o in v.ops.values():
        if o.inv > mark or o.end < mark:
            continue
        if o.op == 'verify' and any(h[3] == 'job.stalled' and h[0] > o.inv and h[0] < o.end and
                                    any(j['job'] == h[4]['job'] for j in v.jobs_for(o))
                                    for h in v.h):
            continue
        if o.op == 'cancel' and v.struck(o):
            continue
        # not stalled itself and not waiting in line behind its own client
        out.append(V('held-up', '%r had not ended 1000 s (simulated) after the stalled '
                     'verifications of %s began' % (o, sorted(stalled))))
    # requests of other clients that never even started
    if v.rep['stuck'] and not out:
        out += r_live(v)
    return out


def r_bad_input(v):
    """Files that are not programs give a failed result with a located message."""
    out = []
    for o in v.verifies:
        p = v.progs[o.arg['file']]
        if not o.done or o.exc is not None:
            continue
        if p.kind == 'odd' and p.odd in ('nofile', 'dir', 'binary', 'latin1', 'nul', 'async',
                                         'badimport', 'mode'):
            if shape(o.res) != FAILED or not o.res['diagnostics']:
                if shape(o.res) == CANCELLED and v.cancel_overlaps(o):
                    continue
                out.append(V('bad-input', 'request %r for a %s file answered %s' % (
                    o, p.odd, E.brief(o.res))))
    return out
