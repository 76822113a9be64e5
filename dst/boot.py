"""Process setup: pinned randomness, seams installed before any import."""

import ctypes
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NAGINI_REPO', '/repo')
PY = '/opt/venv/bin/python'


def pin():
    """Re-execute with a fixed hash seed and (where allowed) without ASLR."""
    if os.environ.get('DST_PINNED') == '1':
        return
    env = dict(os.environ)
    env['DST_PINNED'] = '1'
    env.setdefault('PYTHONHASHSEED', '0')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('MYPYPATH', 'VIPERJAVAPATH', 'Z3_EXE', 'BOOGIE_EXE'):
        env.pop(v, None)
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    sys.stdout.flush()
    os.execve(PY, [PY] + sys.argv, env)


def load(hot=True):
    """Install the seams and import Nagini. Returns nothing."""
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.setrecursionlimit(10000)
    from dst import kernel
    kernel.install()
    from dst import engine
    engine.install_random()
    from dst import jvm, fakezmq
    jvm.install()
    fakezmq.install()
    import logging
    logging.lastResort = None
    import nagini_translation
    assert os.path.realpath(nagini_translation.__file__).startswith(
        os.path.realpath(REPO)), nagini_translation.__file__
    import nagini_translation.main
    import nagini_translation.service
    import nagini_translation.viper_server
    import nagini_translation.lsp_server
    import nagini_translation.mcp_server
    import nagini_translation.client
    from dst import layout
    layout.install()
    import tempfile, uuid, concurrent.futures, asyncio, anyio   # noqa
    import anyio._backends._asyncio                              # noqa


COLD = ('analyzer.py', 'translator.py', 'sif_translator.py', 'tests.py', 'conftest.py',
        'resources', 'translators', 'ghost', 'sif', 'models', 'mypy_patches',
        'external', 'native_ast')


def hot_code():
    """Code objects in which every line is a possible preemption point."""
    from dst import kernel
    root = os.path.realpath(os.path.join(REPO, 'src', 'nagini_translation'))

    def pred(f):
        f = os.path.realpath(f)
        if not f.startswith(root + os.sep):
            return False
        rel = f[len(root) + 1:]
        parts = rel.split(os.sep)
        if parts[0] in COLD:
            return False
        if parts[0] == 'lib':
            return parts[1] in ('config.py', 'jvmaccess.py') or parts[1] == 'errors' \
                and parts[2] == 'manager.py'
        return True
    return kernel.code_objects_of(pred)
