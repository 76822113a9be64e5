"""Seam between the stubs and whatever drives them.

Without a world every hook is inert: calls return at once and no fault fires.
"""

import sys

WORLD = None
AST = None              # called for every Silver node built, if set


def site(name, *info):
    """A point at which the simulated environment may switch threads."""
    if WORLD is not None:
        WORLD.site(name, *info)


def fault(name, *info):
    """True (or fault parameters) if a fault is to be injected here, now."""
    if WORLD is not None:
        return WORLD.fault(name, *info)
    return None


def block(pred, timeout, what=None):
    if WORLD is not None:
        return WORLD.block(pred, timeout, what)
    if not pred():
        raise RuntimeError('would block forever: %r' % (what,))
    return True


def wake(what):
    if WORLD is not None:
        WORLD.wake(what)


def log(kind, **kw):
    if WORLD is not None:
        WORLD.log(kind, **kw)


def jvm_stdout(s):
    if WORLD is not None:
        WORLD.jvm_stdout(s)
    else:
        sys.stderr.write('[jvm-stdout] ' + s)


def jvm_stderr(s):
    if WORLD is not None:
        WORLD.jvm_stderr(s)


def delay(name):
    if WORLD is not None:
        WORLD.delay(name)


def after(name, fn, seconds=None, *info):
    """Run `fn` later in virtual time (immediately without a world)."""
    if WORLD is not None:
        WORLD.after(name, fn, seconds, *info)
    else:
        fn()
