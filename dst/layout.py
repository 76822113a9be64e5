"""Identity hashes of Nagini's objects, drawn from the seed.

Sets of classes, methods and syntax nodes are ordered by the addresses of their
members.  Here the addresses are serial numbers mixed with a seed, so one seed
is one memory layout, and another seed is another one.
"""

STATE = [0, 0]


def _hash(self):
    d = self.__dict__
    h = d.get('_dst_hash')
    if h is None:
        STATE[1] += 1
        h = d['_dst_hash'] = hash((STATE[0], STATE[1]))
    return h


def install():
    import ast
    from nagini_translation.lib import program_nodes as N
    ast.AST.__hash__ = _hash
    for c in (N.PythonScope, N.PythonModule, N.PythonNode, N.PythonType):
        c.__hash__ = _hash
    for c in list(vars(N).values()):
        if isinstance(c, type) and c.__module__ == N.__name__ and \
                c.__hash__ is object.__hash__ and not issubclass(c, (str, int, tuple)):
            try:
                c.__hash__ = _hash
            except TypeError:
                pass


def seed(n):
    STATE[0], STATE[1] = n, 0
