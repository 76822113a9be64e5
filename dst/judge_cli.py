"""Oracles over runs of the command line and sessions of the socket server."""

import json
import re

from . import engine as E
from . import history as H
from . import svc as SV
from .judge import V

HARMLESS = ('server.start', 'server.stop', 'job.handle', 'job.stall', 'server.flush',
            'server.interrupt', 'delay')
OK = 'Verification successful'
TYPE = re.compile(r'[@:][0-9]+[.:][0-9]+')


def parse_argv(argv):
    """(configuration, options of the request, other flags) of a command line."""
    cfg = dict(SV.BASE_CFG, use_viper_server=False)
    op, fl = {}, {}
    it = iter(argv)
    for a in it:
        if a == '--viper-server':
            cfg['use_viper_server'] = True
        elif a == '--verifier':
            cfg['verifier_backend'] = next(it)
        elif a == '--sif=true':
            cfg['sif'] = 'true'
        elif a == '--int-bitops-size':
            cfg['int_bitops_size'] = int(next(it))
        elif a == '--float-encoding':
            cfg['float_encoding'] = next(it)
        elif a == '--disable-branch-conditions':
            cfg['disable_branch_conditions'] = True
        elif a == '--counterexample':
            op['counterexample'] = True
        elif a == '--ignore-global':
            op['ignore_global'] = True
        elif a == '--select':
            op['selected'] = sorted(next(it).split(','))
        elif a.startswith('--viper-arg='):
            op['viper_args'] = a.split('=', 1)[1].split(',')
        elif a in ('--benchmark', '--write-viper-to-file', '--log'):
            fl[a] = next(it)
        else:
            fl[a] = True
    return cfg, op, fl


def expected_lines(res):
    """(beginning of a line, place on it) for each diagnostic of an isolated run."""
    out = []
    for x in res['diagnostics']:
        x = json.loads(x)
        m = x['message'] + (' ' + x['reason'] if x['reason'] else '')
        out.append((m.split('\n')[0].replace(E.CWD + '/', ''), x['file'].rsplit('/', 1)[-1], x['startLine']))
    return out


def text_diff(text, res, ide=False):
    """What is wrong with a printed answer (None if nothing)."""
    lines = text.split('\n')
    good = any(l == OK for l in lines)
    bad = any(l.startswith(('Verification failed', 'Translation failed')) or
              'Translated AST contains' in l for l in lines)
    if res['success']:
        return None if good and not bad else 'not reported as successful: %s' % text[-300:]
    if good:
        return 'reported as successful, alone %s' % sorted(res['diagnostics'])[:2]
    if not bad:
        return 'no verdict: %s' % text[-300:]
    exp = expected_lines(res)
    seen = set()
    for m, f, n in exp:
        place = '%s:%d:' % (f, n) if ide else '%s@%d.' % (f, n)
        for i, l in enumerate(lines):
            if m in l and (place in l or 'timed out' in l or 'Timeout' in m) or \
                    m in l and l.startswith(m):
                seen.add(i)
                break
        else:
            return 'error missing: %s (%s); printed: %s' % (m[:120], place, text[-300:])
    for i, l in enumerate(lines):
        if i not in seen and TYPE.search(l) and not l.startswith((' ', '{')) and not any(
                m in l for m, _, _ in exp):
            if ' error: ' in l or l.rstrip().endswith(')') and '@' in l:
                return 'unexpected error: %s' % l[:200]
    return None


class CView:
    def __init__(self, rep, plan, programs, solo):
        self.rep, self.plan, self.solo = rep, plan, solo
        self.h = rep['history']
        self.progs = {p.name: p for p in programs}
        self.cfg, self.op, self.fl = parse_argv(
            () if plan.get('invalid') else plan.get('argv', ()))
        self.faults = [h[4] for h in self.h if h[3] == 'fault']
        self.ended = next((h[4] for h in self.h if h[3] == 'ended'), None)
        self.code = {p: c for p, c in rep['exit_codes'].items()}

    def answer(self, file, op, cfg=None):
        p = self.progs[file]
        a = self.solo.get(p, dict(op, file=file, sig=p.sig), cfg or self.cfg)
        self.job = a.get('job')
        return None if 'harness' in a or a['res'] is None else a['res']

    def program(self, file, lo, hi):
        """How a program given to the backend between lo and hi differs from alone."""
        sig = self.progs[file].sig
        for j in H.jobs_of(self.h):
            if lo < j['seq'] < hi and j['sig'] == sig and self.job:
                s = H.job_sig(j)
                d = {k: (s[k], self.job.get(k)) for k in s if s[k] != self.job.get(k)}
                if d:
                    return d
        return None


def r_exit(v):
    out = []
    if v.ended is None or not v.ended['ended']:
        if any(h[3] == 'job.stalled' for h in v.h):
            return out
        w = [h[4] for h in v.h if h[3] == 'exit_waits']
        r = [(h[4]['exc'], h[4]['at']) for h in v.h if h[3] == 'main_raised']
        out.append(V('no-exit', 'the command line never ended (main: %s; waiting for %s; %s)' % (
            r, w, str(v.rep['stuck'])[:200])))
        return out
    code, text = v.code.get('cli'), v.ended['out']
    said = any(l == OK for l in text.split('\n'))
    done = any(h[3] in ('server.verify', 'direct.verify') for h in v.h)
    skip = '--skip-verification' in v.fl
    res = v.answer(v.plan['file'], v.op)
    broken = any(f['site'] == 'stdout.epipe' for f in v.faults)
    stop = next((h[0] for h in v.h if h[3] == 'server.stop'), 1 << 60)
    last = max([h[0] for h in v.h if h[3] == 'typecheck'], default=-1)
    struck = [h[4]['site'] for h in v.h if h[3] == 'fault' and h[4]['site'] not in HARMLESS
              and (h[4]['site'] != 'mypy' or h[0] > last)      # else type checked again
              and not (h[4]['site'] == 'sigint' and h[0] > stop)]
    if code == 0:
        if v.plan.get('invalid'):
            out.append(V('exit-0', 'ended with status 0 for invalid arguments'))
        if struck and struck != ['stdout.epipe'] and '--benchmark' not in v.fl:
            out.append(V('exit-0', 'ended with status 0 although struck by %s' % struck,
                         'exit-0/fault'))
        if res is not None:
            if not skip and not res['success'] or skip and bad_translation(res):
                out.append(V('exit-0', 'ended with status 0; alone: %s' % (
                    str(res)[:300],), 'exit-0/failed'))
        if not skip and not said and not broken:
            out.append(V('exit-0', 'ended with status 0 without a verdict', 'exit-0/silent'))
        if not skip and not done:
            out.append(V('exit-0', 'ended with status 0 without verifying', 'exit-0/norun'))
    elif said and not struck:
        out.append(V('verdict', 'printed success but ended with status %s' % code))
    elif not struck and not v.plan.get('invalid') and res is not None and not v.plan.get('loose'):
        if skip and not bad_translation(res) or not skip and res['success']:
            out.append(V('exit-1', 'ended with status %s although verified (%s)' % (
                code, [(h[4]['exc'], h[4]['at']) for h in v.h if h[3] == 'main_raised'])))
    if struck and said and struck != ['stdout.epipe'] and '--benchmark' not in v.fl:
        out.append(V('verdict', 'printed success although struck by %s' % struck))
    if not struck and not v.plan.get('invalid') and res is not None and not skip and \
            not internal(res) and not v.plan.get('loose'):
        d = v.program(v.plan['file'], 0, 1 << 60)
        if d:
            out.append(V('program', '%s %s: the backend was given something else than alone: %s'
                         % (v.plan['file'], v.plan.get('argv'), str(d)[:300])))
        d = text_diff(text, res, '--ide-mode' in v.fl)
        if d:
            out.append(V('text', '%s %s: %s' % (v.plan['file'], v.plan.get('argv'), d)))
    return out


def internal(res):
    return any(json.loads(x)['code'] in ('internal.error', 'verifier.error')
               for x in res['diagnostics'])


def bad_translation(res):
    return res['translationFailed'] or internal(res)


def r_replies(v):
    """Every client gets its own reply; the server survives."""
    out = []
    reqs = {h[4]['id']: (h[0], h[4]) for h in v.h if h[3] == 'creq'}
    reps = {}
    for h in v.h:
        if h[3] == 'creply':
            if h[4]['id'] in reps:
                out.append(V('two-replies', 'client %s got two replies' % h[4]['id']))
            reps[h[4]['id']] = (h[0], h[4]['out'])
    up = any(h[3] == 'zmq.bind' for h in v.h)
    if not up:
        return out
    if 'server' in v.code or any(h[3] == 'main_raised' and h[4]['proc'] == 'server' for h in v.h):
        if any(f['site'] == 'sil.parse' for f in v.faults):
            return out
        out.append(V('server-died', 'the server ended (%s)' % [
            (h[4]['exc'], h[4]['at']) for h in v.h if h[3] == 'main_raised']))
        return out
    if any(h[3] in ('job.stalled', 'direct.stalled') for h in v.h):
        return out
    base_cfg, base_op, fl = v.cfg, v.op, v.fl
    order = sorted(reqs.items(), key=lambda x: x[1][0])
    for n, (i, (seq, kw)) in enumerate(order):
        if i not in reps:
            if kw.get('gone'):
                continue
            out.append(V('no-reply', 'client %s never got a reply to %s (%s)' % (
                i, kw, str(v.rep['stuck'])[:200])))
            continue
        text = reps[i][1]
        file, sel = kw.get('file'), kw.get('select')
        if 'raw' in kw:
            if kw.get('valid') is None:
                if not text.strip():
                    out.append(V('empty-reply', 'client %s got an empty reply to %s' % (i, kw)))
                elif any(l == OK for l in text.split('\n')):
                    out.append(V('false-success', 'client %s was told of a success for %s' % (
                        i, kw)))
                continue
            file, sel = kw['valid']
        op = dict(base_op)
        if sel:
            op['selected'] = sorted(sel.split(','))
        res = v.answer(file, op)
        if res is None:
            continue
        end = reps[i][0]
        hit = [f for h in v.h if h[3] == 'fault' and h[0] > seq and h[0] < end
               for f in [h[4]] if f['site'] not in HARMLESS and f.get('prog') in (None, file)]
        said = any(l == OK for l in text.split('\n'))
        if hit:
            if said and not res['success']:
                out.append(V('false-success', 'client %s was told of a success of %s, struck by '
                             '%s' % (i, file, [f['site'] for f in hit])))
            if not text.strip():
                out.append(V('empty-reply', 'client %s got an empty reply' % i))
            continue
        if internal(res):
            if said or not text.strip():
                out.append(V('reply', 'client %s asked for %s and got %r' % (i, file, text[:200])))
            continue
        d = v.program(file, seq, end)
        if d:
            out.append(V('program', 'client %s asked for %s%s; the backend was given something '
                         'else than alone: %s' % (i, file, ' (%s)' % sel if sel else '',
                                                  str(d)[:300])))
        d = text_diff(text, res, '--ide-mode' in fl)
        if d:
            out.append(V('reply', 'client %s asked for %s%s: %s' % (
                i, file, ' (%s)' % sel if sel else '', d)))
    return out
