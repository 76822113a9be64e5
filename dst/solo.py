"""Answers of isolated runs: the reference every simulated answer is compared to."""

import json
import os

from . import engine as E
from . import svc as SV
from . import history as H

VERIFY_KEYS = ('file', 'selected', 'viper_args', 'counterexample', 'ignore_global',
               'include_viper', 'arp', 'base_dir')


class Solo:
    def __init__(self, cwd, hot=()):
        self.cache = {}
        self.cwd = cwd
        self.runs = 0
        self.broken = []

    def key(self, files, arg, cfg):
        a = {k: arg[k] for k in VERIFY_KEYS if k in arg and arg[k] not in (None, False, [])}
        return json.dumps([sorted(files.items()), a, sorted(cfg.items(), key=str)],
                          sort_keys=True, default=str)

    def get(self, program, arg, cfg, files=None):
        """{'res': normalised result or None, 'exc': ..., 'job': job_sig or None}."""
        files = files if files is not None else program.files
        k = self.key(files, arg, cfg)
        if k in self.cache:
            return self.cache[k]
        op = {x: arg[x] for x in VERIFY_KEYS + ('sig',) if x in arg}
        plan = SV.solo_plan(cfg, op, files)

        def f():
            s = SV.ServiceScenario(plan, [], ())
            E.write_files(files)
            return s.run()
        r = E.run_child(f, cwd=rundir(self.cwd, 'solo'))
        self.runs += 1
        out = {'res': None, 'exc': None, 'job': None}
        if 'harness' in r:
            out['harness'] = r
            self.broken.append(r)
        else:
            o = H.ops_of(r['history']).get('0.0')
            if o is not None:
                out['res'], out['exc'] = o.res, o.exc
            js = H.jobs_of(r['history'])
            if js:
                out['job'] = H.job_sig(js[0])
            if r['stuck']:
                out['exc'] = 'stuck: %s' % (r['stuck'],)
            bad = [h for h in r['history'] if h[3] == 'construct_failed']
            if bad:
                out['exc'] = 'construction failed: %s' % bad[0][4]['exc']
        self.cache[k] = out
        return out


def rundir(base, name='run'):
    """A fresh directory that shares the worker's warm type checker cache."""
    d = E.fresh_dir(base + '/' + name)
    for n in ('.mypy_cache_strict', '.mypy_cache_nonstrict'):
        if os.path.isdir(base + '/' + n):
            os.symlink(base + '/' + n, d + '/' + n)
    return d
