PROPERTY = 'C11'
NEEDS = 'a request without a selection after one with a selection'
BREAKS = ('the selection of one client is kept in the options of the server, so the next client '
          'that does not select anything gets an answer for that selection only')
EDITS = [('src/nagini_translation/main.py', '''
        if selected is None:
            selected = set(args.select.split(',')) if args.select else set()
''', '''
        if selected is not None:
            args.select = ','.join(sorted(selected))
        selected = set(args.select.split(',')) if args.select else set()
''')]
DEMO = '''
import argparse

import nagini_translation.main as M

got = []


def translate(path, jvm, bits, selected=None, **k):
    got.append((path, set(selected)))
    raise M.TypeException(['no'])


M.translate = translate
args = argparse.Namespace(select=None, int_bitops_size=8, sif=False, ignore_global=False,
                          verbose=False, skip_verification=False, extraction=False,
                          counterexample=False, float_encoding=None, ide_mode=False)
for req in ('{"file": "/x/a.py", "select": "f"}', '/x/b.py'):
    f, sel = M._parse_client_request(req)
    M.translate_and_verify(f, None, args, lambda *a: None, selected=sel)
assert got == [('/x/a.py', {'f'}), ('/x/b.py', set())], got
'''
EXTRA = []
