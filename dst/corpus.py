"""Programs of the repository's own test suite (copied), as workload.

They have no ground truth here: answers are compared with isolated runs only.
"""

import ast
import os

from . import programs as PG

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus')


# their translation goes through sets of classes
GLOBALS = 'ver_test_global_vars.py'
UNIONS = ['ver_test_union_contracts.py', 'ver_test_boolop.py', 'veri_00118.py']


def names(sif=False):
    return sorted(n for n in os.listdir(DIR) if n.startswith('sif') == sif)


def make(r, idx, sif=False, name=None):
    if name is None:
        k = r.random()
        g = 'sif' if sif else 'tra' if k < 0.2 else 'ver'
        name = r.choice([x for x in names(sif) if x.startswith(g)])
    n = name
    with open(os.path.join(DIR, n)) as f:
        text = f.read()
    sig = 900000 + idx
    methods = []
    try:
        for d in ast.parse(text).body:
            if isinstance(d, ast.FunctionDef) and not d.decorator_list:
                methods.append(d.name)
    except SyntaxError:
        pass
    text = text.rstrip('\n') + '\n\n\ndef sig_%d(a: int) -> None:\n    assert a != %d\n' % (
        idx, sig)
    p = PG.Program('q%d_%s' % (idx, n), {}, [], 'corpus', False, methods, sig)
    p.files = {p.name: text}
    p.sif = n[3:7] if sif else None
    return p


def pool(r, n, base):
    """Programs of the corpus; in some pools those for information flow."""
    sif = base // 10 % 8 == 6
    return [make(r, base + i, sif, None if sif else r.choice(UNIONS) if i == 1 else
                 GLOBALS if i == 2 else None)
            for i in range(n)]
