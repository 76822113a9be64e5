"""Oracles over the history of a language-server scenario."""

import json
from collections import Counter

from . import engine as E
from . import history as H
from . import lsp as L
from . import svc as SV
from .judge import V

ANSWER_BOUND = 120.0        # simulated seconds
EXC_LINES = ('internal.error', 'verifier.error')


class LView:
    def __init__(self, rep, plan, programs, solo):
        self.rep, self.plan, self.solo = rep, plan, solo
        self.h = rep['history']
        self.progs = {p.name: p for p in programs}
        from nagini_translation import service as S
        init = plan.get('init') or {}
        self.cfg = dict(SV.BASE_CFG)
        for k, n in S.OPTION_TO_KWARG.items():
            if init.get(k) is not None and n in H.OPT2CFG:
                self.cfg[n] = init[k]
        argv = plan.get('argv', [])
        self.ce = '--no-counterexamples' not in argv
        if init.get('counterexamples') is not None:
            self.ce = bool(init['counterexamples'])
        self.ig = bool(init.get('ignoreGlobal'))
        self.runs = [(h[0], h[1], h[4]) for h in self.h if h[3] == 'run']
        self.pubs = [(h[0], h[1], h[4]) for h in self.h if h[3] == 'publish']
        self.errs = [(h[0], h[1], h[4]) for h in self.h
                     if h[3] == 'logmsg' and h[4]['type'] == 1]
        self.writes = [(h[0], h[4]['files']) for h in self.h if h[3] == 'wrote']
        self.settled = next((h[0] for h in self.h if h[3] == 'settled'), None)
        self.faults = [(h[0], h[4]) for h in self.h if h[3] == 'fault']

    def files_at(self, name, lo, hi):
        """Possible contents of a program's files between two moments."""
        fs = dict(self.progs[name].files)
        out = []
        for seq, w in self.writes:
            w = {a: b for a, b in w.items() if a in fs}
            if not w or all(fs[a] == b for a, b in w.items()):
                continue
            if lo < seq <= hi:
                out.append(dict(fs))
            if seq > hi:
                break
            fs.update(w)
        return out + [fs]

    def op(self, kw):
        d = dict(file=kw['file'], sig=self.progs[kw['file']].sig)
        if self.ce:
            d['counterexample'] = True
        if self.ig:
            d['ignore_global'] = True
        if kw.get('selected'):
            d['selected'] = [kw['selected']]
        return d

    def answers(self, run, end):
        """Results a run may give (solo results over the possible contents)."""
        seq, _, kw = run
        out = []
        for fs in self.files_at(kw['file'], seq, end):
            a = self.solo.get(self.progs[kw['file']], self.op(kw), self.cfg, fs)
            out.append(a)
        return out

    def expected(self, run, end):
        return [L.expected(a['res']) for a in self.answers(run, end)
                if 'harness' not in a and a['res'] is not None]

    def struck(self, name, lo, hi=float('inf')):
        """Faults that may have changed an answer for this file."""
        return [f for s, f in self.faults if lo < s < hi and f['site'] not in
                ('server.start', 'job.stall', 'sil.parse')
                and (f.get('prog') in (None, name))] + \
               [h for h in self.h if h[3] in ('job.crashed', 'job.timeout')
                and h[4]['prog'] == name and lo < h[0] < hi]

    def is_error(self, diags):
        return len(diags) == 1 and json.loads(diags[0])[5] in EXC_LINES

    def timeout_of(self, diags, exp):
        """exp plus a time-out diagnostic."""
        extra = list((Counter(diags) - Counter(exp)).elements())
        return not Counter(exp) - Counter(diags) and len(extra) == 1 and \
            ('imeout' in extra[0] or 'imed out' in extra[0])

    def fits(self, run, pub):
        """Could this publication be the outcome of this run?"""
        seq, _, kw = run
        name = kw['file']
        if pub[0] < seq or pub[2]['file'] != name:
            return False
        d = pub[2]['diags']
        ex = self.expected(run, pub[0])
        if any(d == e for e in ex):
            return True
        if self.struck(name, seq, pub[0]):
            return self.is_error(d) or any(self.timeout_of(d, e) for e in ex)
        return False


def short(d):
    out = []
    for x in d:
        x = json.loads(x)
        out.append('%d %s' % (x[0] + 1, x[5]))
    return out


def r_newest(v):
    """C07: publications never go back to an older run; the last one is the newest's."""
    out = []
    if v.rep['stuck'] or any('harness' in a for r in v.runs for a in v.answers(r, float('inf'))):
        return out
    # only under a document that was asked for, and matching some run of it
    names = {r[2]['file'] for r in v.runs}
    for p in v.pubs:
        if p[2]['uri'] != L.uri_of(p[2]['file']) or p[2]['file'] not in names:
            out.append(V('wrong-document', 'diagnostics published under %s' % p[2]['uri']))
    for name in sorted(names):
        runs = [r for r in v.runs if r[2]['file'] == name]
        pubs = [p for p in v.pubs if p[2]['file'] == name]
        i = 0
        bad = False
        for p in pubs:
            j = i
            while j < len(runs) and not v.fits(runs[j], p):
                j += 1
            if j == len(runs):
                older = [a for a in range(i) if v.fits(runs[a], p)]
                if older:
                    out.append(V('stale', 'diagnostics %s of run %d of %s published after those '
                                 'of run %d' % (short(p[2]['diags']), older[-1], name, i - 1)))
                else:
                    out.append(V('wrong-diagnostics', 'diagnostics %s published for %s belong '
                                 'to none of its %d runs (%s)' % (
                                     p[2]['diags'][:3], name, len(runs),
                                     [[short(e) for e in v.expected(r, p[0])]
                                      for r in runs][:4])))
                bad = True
                break
            i = j + 1
        if bad or v.settled is None:
            continue
        last = runs[-1]
        # the newest run: was it prevented?
        if v.errs and v.errs[-1][0] > last[0]:
            continue
        if stalled(v, last):
            continue
        if not pubs:
            out.append(V('nothing', 'no diagnostics were ever published for %s (%d runs)' % (
                name, len(runs))))
        elif not v.fits(last, pubs[-1]):
            out.append(V('not-newest', 'the last diagnostics of %s are %s; its newest run '
                         '(%s) gives %s' % (name, short(pubs[-1][2]['diags']),
                                            last[2]['how'],
                                            [short(e) for e in v.expected(
                                                last, float('inf'))])))
    return out


def stalled(v, run):
    """The run was submitted and the backend never answered."""
    name = run[2]['file']
    return any(h[3] == 'job.stalled' and h[4]['prog'] == name and h[0] > run[0] for h in v.h)


def r_hover(v):
    """C07: hovers show the counterexamples of the diagnostics last published."""
    out = []
    if v.rep['stuck']:
        return out
    ans = {h[4]['id']: h[4] for h in v.h if h[3] == 'response'}
    for h in v.h:
        if h[3] != 'request' or not h[4].get('final') or h[4]['method'] != L.METHODS['hover']:
            continue
        ps = json.loads(h[4]['params'])
        name = L.file_of(ps['textDocument']['uri'])
        line = ps['position']['line']
        runs = [r for r in v.runs if r[2]['file'] == name]
        a = ans.get(h[4]['id'])
        if not runs or a is None or a.get('error') is not None:
            continue
        pubs = [p for p in v.pubs if p[2]['file'] == name]
        texts = None
        if not pubs:
            texts = [set()]
        else:
            texts = []
            for r in runs:
                for x in v.answers(r, pubs[-1][0]):
                    if 'harness' in x or x['res'] is None:
                        return out
                    if L.expected(x['res']) == pubs[-1][2]['diags']:
                        ds = [json.loads(d) for d in x['res']['diagnostics']]
                        texts.append({d['counterexample'] for d in ds
                                      if d['startLine'] - 1 <= line <= d['endLine'] - 1
                                      and d['counterexample']})
        got = a['res']
        has = '**Counterexample**' in got
        if not any((not t and not has) or any(c.splitlines()[0] in got for c in t)
                   for t in texts) and texts:
            out.append(V('hover', 'hover on line %d of %s answers %s; its diagnostics have '
                         'counterexamples %s' % (line, name, got[:200],
                                                 [sorted(t) for t in texts][:2])))
    return out


def r_responsive(v):
    """C08: requests that need no verification are answered at once."""
    out = []
    ans = {}
    for h in v.h:
        if h[3] == 'response':
            ans.setdefault(h[4]['id'], []).append(h)
    end = next((h[0] for h in v.h if h[3] == 'finish'), None)
    for h in v.h:
        if h[3] != 'request' or h[4]['method'] == L.METHODS['command']:
            continue
        a = ans.get(h[4]['id'], [])
        if not a:
            if any(x[3] == 'proc_exit' for x in v.h) and h[4]['method'] != 'shutdown':
                if any(x[3] == 'request' and x[4]['method'] == 'shutdown' and x[0] < h[0]
                       for x in v.h):
                    continue
            out.append(V('no-answer', 'request %s %s was never answered%s' % (
                h[4]['id'], h[4]['method'], '' if end else ' (stuck: %s)' % (v.rep['stuck'],))))
        elif a[0][1] - h[1] > ANSWER_BOUND:
            out.append(V('slow-answer', 'request %s %s was answered after %.0f simulated '
                         'seconds' % (h[4]['id'], h[4]['method'], a[0][1] - h[1])))
        elif len(a) > 1:
            out.append(V('two-answers', 'request %s %s was answered twice' % (
                h[4]['id'], h[4]['method'])))
        elif a[0][4].get('error') is not None and not any(
                x[3] == 'request' and x[4]['method'] == 'shutdown' and x[0] <= h[0]
                for x in v.h):
            out.append(V('error-answer', 'request %s %s was answered with error %s' % (
                h[4]['id'], h[4]['method'], a[0][4]['error'])))
    return out


def r_accounts(v):
    """C08: one outcome per run that was not superseded."""
    out = []
    if v.settled is None:
        return out
    names = {r[2]['file'] for r in v.runs}
    for name in sorted(names):
        runs = [r for r in v.runs if r[2]['file'] == name]
        pubs = [p for p in v.pubs if p[2]['file'] == name and p[0] < v.settled]
        if len(pubs) > len(runs):
            out.append(V('too-many', '%d publications for %d runs of %s' % (
                len(pubs), len(runs), name)))
        last = runs[-1]
        if stalled(v, last) or cancelled_by_client(v, last):
            continue
        got = [p for p in pubs if p[0] > last[0]]
        errs = [e for e in v.errs if e[0] > last[0]]
        if not got and not errs:
            out.append(V('no-outcome', 'the last run (%s) of %s had no visible outcome' % (
                last[2]['how'], name)))
        if len(got) > 1 and len([r for r in runs if r[0] < got[0][0]]) < len(got):
            out.append(V('two-outcomes', 'the last run of %s was published twice' % name))
    # error messages: only when something failed, once per run
    ne = len(v.errs)
    nf = sum(1 for _, f in v.faults if f['site'] in ('sil.parse', 'jvm.start'))
    bad_cfg = v.plan.get('bad_config')
    if not bad_cfg and ne > nf:
        out.append(V('spurious-error', '%d error messages, %d start-up faults: %s' % (
            ne, nf, [e[2]['text'] for e in v.errs][:3])))
    if ne > len(v.runs):
        out.append(V('spurious-error', '%d error messages for %d runs' % (ne, len(v.runs))))
    if nf and ne < 1 and any(r[0] < v.faults[0][0] for r in v.runs):
        out.append(V('silent-start-failure', 'the service could not be started, but no error '
                     'message was shown'))
    # commands are answered exactly once too
    ans = Counter(h[4]['id'] for h in v.h if h[3] == 'response')
    for h in v.h:
        if h[3] == 'request' and h[4]['method'] == L.METHODS['command']:
            run = next(r for r in v.runs if r[2]['i'] == h[4]['run'])
            if not ans[h[4]['id']]:
                if stalled(v, run) or v.rep['stuck']:
                    continue
                out.append(V('no-answer', 'command request %s was never answered' % h[4]['id']))
            else:
                e, at = next((x[4].get('error'), x[0]) for x in v.h if x[3] == 'response'
                             and x[4]['id'] == h[4]['id'])
                if at > v.settled:
                    continue            # the protocol library cancels what is left at shutdown
                if e is not None and not cancelled_by_client(v, run):
                    out.append(V('error-answer', 'command request %s was answered with error '
                                 '%s' % (h[4]['id'], e)))
    return out


def cancelled_by_client(v, run):
    ids = {h[4]['id'] for h in v.h if h[3] == 'cancelrequest'}
    return any(h[3] == 'request' and h[4].get('run') == run[2]['i'] and h[4]['id'] in ids
               for h in v.h)


def r_started_once(v):
    """C08: one start of the service at a time; a failed one is tried again."""
    out = []
    n = sum(h[3] == 'server.new' for h in v.h)
    bad = sum(1 for _, f in v.faults if f['site'] == 'server.start')
    if n > 1 + bad:
        out.append(V('started-twice', '%d backend servers were created' % n))
    nf = sum(1 for _, f in v.faults if f['site'] == 'sil.parse')
    np = v.rep['sites'].get('sil.parse', 0)
    if np > nf + 1:
        out.append(V('started-twice', 'the resources were loaded %d times with %d failures' % (
            np, nf)))
    return out


def r_retry(v):
    """C08: a run requested after the last fault is verified."""
    out = []
    if v.settled is None or v.plan.get('bad_config'):
        return out
    lastf = max([s for s, _ in v.faults] + [0])
    for name in sorted({r[2]['file'] for r in v.runs}):
        runs = [r for r in v.runs if r[2]['file'] == name]
        last = runs[-1]
        if last[0] < lastf or stalled(v, last) or cancelled_by_client(v, last):
            continue
        if any(stalled(v, r) for r in v.runs):
            continue            # may occupy all workers
        errs = [e for e in v.errs if e[0] > last[0]]
        pubs = [p for p in v.pubs if p[0] > last[0] and p[2]['file'] == name]
        if not pubs:
            out.append(V('no-retry', 'run of %s after the last fault gave no diagnostics (%s)' % (
                name, [e[2]['text'] for e in errs][:1])))
    return out


def r_protocol(v):
    """C09: standard output carries protocol only."""
    out = []
    for h in v.h:
        if h[3] == 'garbage':
            out.append(V('garbage', 'standard output contains %s' % h[4]['data'][:200]))
    if v.rep['foreign']:
        out.append(V('foreign', 'written to standard output by %s: %r' % tuple(
            v.rep['foreign'][0])))
    if v.rep.get('fd1'):
        out.append(V('foreign', 'written to file descriptor 1: %r' % v.rep['fd1'][:200]))
    if v.rep['partial'] and not v.rep['garbage'] and not v.rep['stuck']:
        out.append(V('garbage', 'standard output ends inside a message'))
    return out


def r_ends(v, proc='lsp'):
    """The process ends by itself with status 0 and leaves no backend threads."""
    out = []
    if not any(h[3] == 'finish' for h in v.h):
        return out
    code = v.rep['exit_codes'].get(proc, 'none')
    if code == 'none':
        out.append(V('no-exit', 'the process had not ended 400 simulated seconds after the '
                     'client was gone (%s)' % str(v.rep['stuck'])[:300]))
    elif code != 0:
        rs = [h[4] for h in v.h if h[3] == 'main_raised']
        out.append(V('exit-code', 'the process ended with status %s (%s)' % (
            code, [(r['exc'], r['at']) for r in rs][:1])))
    return out


def r_released(v):
    out = []
    if any(h[3] == 'finish' for h in v.h) and any(v.rep['executors']):
        out.append(V('threads-left', 'the threads of the backend server were never stopped'))
    if any(v.rep['servers']) and not v.rep['stuck']:
        out.append(V('server-left', 'the backend server was never stopped'))
    return out
