PROPERTY = 'C13'
NEEDS = ('cancelling everything while a stalled backend delays the answer to the interruption, '
         'and another request is made in the meantime')
BREAKS = ('the answer of the backend server is awaited with the job table locked, so no request '
          'can begin or end until the stalled backend reacts')
EDITS = [('src/nagini_translation/service.py', '''
            else:
                manager.cancel_all()
''', '''
            else:
                # No run may be submitted between the interruptions.
                with self._jobs_lock:
                    manager.cancel_all()
''')]
DEMO = '''
import h

stalled = h.threading.Event()


class M(h.Manager):
    def cancel_all(self):
        stalled.wait(60)        # the backend takes its time


def run():
    s, m = h.service(lambda path, jvm, bits, **k: (['m'], []), M())
    a = h.go(s.verify, '/x/a.py')
    m.wait(1)
    h.go(s.cancel)
    h.threading.Event().wait(0.5)
    b = h.go(s.verify, '/x/b.py')
    m.wait(2, 10).finish('ok')
    r = h.answer(b, 10)
    assert r.success
    stalled.set()


h.main(run)
'''
