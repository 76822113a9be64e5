"""Reading a recorded history: operations, configuration timeline, jobs."""

from . import svc as SV

OPT2CFG = {'verifier_backend': 'verifier_backend', 'sif': 'sif',
           'float_encoding': 'float_encoding', 'int_bitops_size': 'int_bitops_size',
           'use_viper_server': 'use_viper_server',
           'disable_branch_conditions': 'disable_branch_conditions',
           'z3_path': 'z3_path', 'boogie_path': 'boogie_path', 'mypy_path': 'mypy_path'}

PUBLIC = {'verifier': 'verifier_backend', 'sif': 'sif', 'intBitopsSize': 'int_bitops_size',
          'floatEncoding': 'float_encoding', 'useViperServer': 'use_viper_server',
          'disableBranchConditions': 'disable_branch_conditions', 'z3Path': 'z3_path',
          'boogiePath': 'boogie_path'}


class Op:
    def __init__(self, id, op, arg, seq, now):
        self.id, self.op, self.arg, self.inv, self.t0 = id, op, arg, seq, now
        self.ret = self.t1 = self.res = self.exc = None
        self.at = None
        self.done = False

    @property
    def end(self):
        return self.ret if self.ret is not None else float('inf')

    def __repr__(self):
        return '%s %s %r' % (self.id, self.op, self.arg)


def ops_of(history):
    out = {}
    for seq, now, th, kind, kw in history:
        if kind == 'invoke':
            out[kw['id']] = Op(kw['id'], kw['op'], kw['arg'], seq, now)
        elif kind == 'return':
            o = out[kw['id']]
            o.ret, o.t1, o.res, o.done = seq, now, kw['res'], True
        elif kind == 'raised':
            o = out[kw['id']]
            o.ret, o.t1, o.exc, o.at, o.done = seq, now, kw['exc'], kw.get('at'), True
    return out


def apply_options(cfg, options):
    """The configuration a reconfigure call asks for (documented semantics)."""
    c = dict(cfg)
    for k, v in options.items():
        if k not in OPT2CFG:
            continue
        if v is None and k != 'float_encoding':
            continue
        c[OPT2CFG[k]] = v
    return c


def timeline(history, ops, start):
    """[(earliest seq, latest seq, cfg, still-possible)] of configurations.

    Reconfigurations are issued one after the other (by construction of the
    plans); one that raised must leave the previous configuration in effect.
    """
    t = [[0, float('inf'), dict(start)]]
    rs = sorted((o for o in ops.values() if o.op == 'reconfigure'), key=lambda o: o.inv)
    for o in rs:
        if o.done and o.exc is not None:
            continue
        new = apply_options(t[-1][2], o.arg['options'])
        if new == t[-1][2]:
            continue
        t[-1][1] = o.end
        t.append([o.inv, float('inf'), new])
    return t


def candidates(tl, a, b):
    """Configurations that may have been in effect at some moment of [a, b]."""
    return [c for lo, hi, c in tl if lo < b and hi > a]


def jobs_of(history):
    """Programs handed to a backend: job id -> dict with events."""
    out = []
    cur = {}
    for seq, now, th, kind, kw in history:
        if kind == 'server.verify':
            j = dict(kw, seq=seq, thread=th, end=None, how=None, t0=now)
            cur[kw['job']] = j
            out.append(j)
        elif kind in ('job.done', 'job.crashed', 'job.cancelled'):
            j = cur.get(kw['job'])
            if j is not None and j['end'] is None:
                j['end'], j['how'], j['t1'] = seq, kind, now
        elif kind == 'direct.verify':
            out.append(dict(kw, seq=seq, thread=th, prog=None, job=None, end=None,
                            how=None, t0=now))
    return out


def job_sig(j):
    """What identifies the program and command line a backend was given."""
    return dict(backend=j['backend'], args=j['args'], feat=j['feat'], bag=j['bag'],
                sig=j['sig'])
