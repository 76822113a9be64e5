PROPERTY = 'C02'
NEEDS = ('a program with an imported module where the same error occurs at the same line and '
         'column in both files')
BREAKS = 'errors of different files are taken for duplicates and dropped from the answer'
EDITS = [('src/nagini_translation/service.py', '''
            key = (diag.file, diag.start_line, diag.start_col, diag.code, diag.message)
''', '''
            key = (diag.start_line, diag.start_col, diag.code, diag.message, diag.reason)
''')]
DEMO = '''
import h


def translate(path, jvm, bits, **k):
    h.EM.clear()
    return ['m'], [h.item(f, 7, 'assert.failed:assertion.false', 'Assert might fail.',
                          'Assertion a != 1 might not hold.')
                   for f in (path, '/x/helper.py')]


def run():
    s, m = h.service(translate)
    m.auto = lambda j: j.finish(h.VFailure(j.prog))
    r = s.verify('/x/main.py')
    assert sorted(d.file for d in r.diagnostics) == ['/x/helper.py', '/x/main.py'], r


h.main(run)
'''
