"""Oracles about the life of the in-process backend server."""

from .judge import V


def life(h):
    """Executors and servers over time: [(seq, alive executors, running servers)]."""
    ex, srv, out = set(), set(), []
    for seq, now, th, kind, kw in h:
        if kind == 'executor.start':
            ex.add(kw['ex'])
        elif kind == 'executor.terminate':
            ex.discard(kw['ex'])
        elif kind == 'server.ready':
            srv.add(kw['srv'])
        elif kind in ('server.stop', 'server.killed'):
            srv.discard(kw['srv'])
        else:
            continue
        out.append((seq, set(ex), set(srv)))
    return out


def r_single(v):
    """Never two backend servers (or their thread pools) at a time."""
    out = []
    stuck_ex = any(f['site'] == 'executor.terminate' for f in faults(v))
    for seq, ex, srv in life(v.h):
        if len(srv) > 1 and not stuck_ex:
            out.append(V('two-servers', 'two backend servers run at a time (event %d)' % seq))
            break
        if len(ex) > 1 and not stuck_ex:
            out.append(V('two-pools', 'the thread pools of two backend servers exist at a time '
                         '(event %d)' % seq))
            break
    return out


def faults(v):
    return [h[4] for h in v.h if h[3] == 'fault']


def r_released(v, ended=False):
    """Nothing is left once the frontend has shut down (threads end with their process)."""
    out = []
    fs = {f['site'] for f in faults(v)}
    if not ended and any(v.rep['executors']) and 'executor.terminate' not in fs:
        out.append(V('threads-left', 'the threads of the backend server were never stopped (%s)'
                     % v.rep['executors']))
    if any(v.rep['servers']) and 'executor.terminate' not in fs:
        out.append(V('server-left', 'the backend server was never stopped (%s)'
                     % v.rep['servers']))
    return out


def eligible(c, o):
    return c['use_viper_server'] and not c['sif'] and not o.arg.get('arp') and \
        c['verifier_backend'] in ('silicon', 'carbon')


def r_used(v):
    """The running server takes every eligible request, and no other."""
    out = []
    ready = []                          # [from, to]
    for seq, now, th, kind, kw in v.h:
        if kind == 'server.ready':
            ready.append([seq, float('inf')])
        elif kind in ('server.stop', 'server.killed') and ready and ready[-1][1] == float('inf'):
            ready[-1][1] = seq
    for o in v.verifies:
        if not o.done:
            continue
        cs = v.cands(o)
        js = v.jobs_for(o)
        if all(eligible(c, o) for c in cs) and any(a < o.inv and o.end < b for a, b in ready):
            if any(j['job'] is None for j in js):
                out.append(V('not-used', 'request %r was verified by the direct backend although '
                             'the backend server was running' % o))
        if not any(eligible(c, o) for c in cs) and any(j['job'] is not None for j in js):
            out.append(V('wrong-backend', 'request %r was given to the backend server although '
                         'not eligible' % o))
    if not any(c['use_viper_server'] for _, _, c in v.tl) and \
            any(h[3] == 'executor.start' for h in v.h):
        out.append(V('unasked', 'the backend server was started although never asked for'))
    return out


def r_harmless(v):
    """Flushing, cancelling and shutting down never raise."""
    out = []
    for o in v.ops.values():
        if o.op in ('flush', 'cancel', 'shutdown') and o.exc is not None:
            out.append(V('harmful', '%r raised %s (at %s)' % (o, o.exc, o.at)))
    return out
