PROPERTY = 'C04'
NEEDS = ('a request handled by the direct backend (no backend server) into which an unexpected '
         'exception strikes, followed by any other request')
BREAKS = 'the state lock is not released, every later request waits for ever'
EDITS = [('src/nagini_translation/service.py', '''
        with self._state_lock:
            return self._verify_serial(path, selected, base_dir, arp, counterexample,
                                       ignore_global, viper_args, include_viper)
''', '''
        waiting = time.time()
        self._state_lock.acquire()
        logging.debug('Waited %.1fs for the state lock.', time.time() - waiting)
        result = self._verify_serial(path, selected, base_dir, arp, counterexample,
                                     ignore_global, viper_args, include_viper)
        self._state_lock.release()
        return result
''')]
DEMO = '''
import h
from h import S

n = [0]


def verify_program(*a, **k):
    n[0] += 1
    if n[0] == 1:
        raise RuntimeError('backend could not be created')
    return S.Success()


def run():
    S.verify_program = verify_program
    s, m = h.service(lambda path, jvm, bits, **k: (['m'], []), use_viper_server=False)
    h.config.use_viper_server = False
    r = h.answer(h.go(s.verify, '/x/a.py'))
    assert not r.success
    r = h.answer(h.go(s.verify, '/x/b.py'), 10)
    assert r.success


h.main(run)
'''
