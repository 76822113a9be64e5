PROPERTY = 'C01'
NEEDS = ('two concurrent requests: one is being translated at the moment the failure of the '
         'other one is converted')
BREAKS = ('the global error-mapping state is swapped under a lock of its own, so a conversion '
          'replaces the state of a translation in progress')
EDITS = [('src/nagini_translation/service.py', '''
        self._state_lock = threading.Lock()
''', '''
        self._state_lock = threading.Lock()
        # Conversions only have to be serialized with each other.
        self._conversion_lock = threading.Lock()
'''), ('src/nagini_translation/service.py', '''
        with self._state_lock:
            error_manager._items, error_manager._conversion_rules = snapshot
''', '''
        with self._conversion_lock:
            error_manager._items, error_manager._conversion_rules = snapshot
''')]
DEMO = '''
import h
from h import S

inside, resume = h.threading.Event(), h.threading.Event()


def translate(path, jvm, bits, **k):
    h.EM.clear()
    i = h.item(path, 3, 'assert.failed', 'Assert might fail.', path)
    if path.endswith('b.py'):
        inside.set()
        resume.wait(4)          # B is in the middle of its translation
    j = h.item(path, 4, 'assert.failed', 'Assert might fail.', path)
    return ['m'], [i, j]


def run():
    s, m = h.service(translate)
    a = h.go(s.verify, '/x/a.py')
    ja = m.wait(1)
    b = h.go(s.verify, '/x/b.py')
    assert inside.wait(10)
    ja.finish(h.VFailure(ja.prog))      # A fails while B is translated
    h.threading.Event().wait(1.0)
    resume.set()
    jb = m.wait(2)
    jb.finish(h.VFailure(jb.prog))
    for t, p in ((a, '/x/a.py'), (b, '/x/b.py')):
        ds = h.answer(t).diagnostics
        assert [(d.file, d.start_line) for d in ds] == [(p, 3), (p, 4)], (p, ds)


h.main(run)
'''
