PROPERTY = 'C16'
NEEDS = ('a file changed between being read and being parsed, and another request for it '
         'afterwards')
BREAKS = ('parsed files are kept by their time stamp and size, looked up after the contents '
          'were read, so the old contents stay in use under the new time stamp')
EDITS = [('src/nagini_translation/analyzer.py', '''
            parse_result = ast.parse(text, type_comments=True)
''', '''
            parse_result = _parse_file(abs_path, text)
'''), ('src/nagini_translation/analyzer.py', '''
class Analyzer(ast.NodeVisitor):
''', '''
_PARSED = {}  # (path, time stamp, size) -> serialized AST


def _parse_file(path: str, text: str) -> ast.Module:
    """
    Parses the given file; large files are only parsed again if they changed.
    """
    stat = os.stat(path)
    key = (path, stat.st_mtime_ns, stat.st_size)
    if key not in _PARSED:
        _PARSED[key] = pickle.dumps(ast.parse(text, type_comments=True))
    return pickle.loads(_PARSED[key])


class Analyzer(ast.NodeVisitor):
'''), ('src/nagini_translation/analyzer.py', '''
import nagini_contracts.lock
''', '''
import nagini_contracts.lock
import pickle
''')]
DEMO = '''
import ast
import os
import tempfile

import nagini_translation.analyzer as A


class Types:
    files = {}
    text = None

    def read_source(self, path):
        if self.text is not None:
            text, self.text = self.text, None
            return text
        with open(path) as f:
            return f.read()


class Mod:
    pass


def parse(types, path):
    a = A.Analyzer.__new__(A.Analyzer)
    a.types, a.modules, a.asts, a.module_paths = types, {path: Mod()}, {}, [path]
    a.collect_imports(path)
    return ast.unparse(a.asts[path]).strip()


with tempfile.TemporaryDirectory() as d:
    p, t = d + '/a.py', Types()
    with open(p, 'w') as f:
        f.write('x = 2')
    # the file was replaced right after having been read for the first request
    t.text = 'x = 1'
    assert parse(t, p) == 'x = 1'
    assert parse(t, p) == 'x = 2'
'''
EXTRA = []
