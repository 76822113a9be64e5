PROPERTY = 'C03'
NEEDS = ('requests that are not verified by the backend server (information-flow mode, no server): '
         'one without obligations followed by one with obligations')
BREAKS = ('the obligation encoding stays switched off for the rest of the process once a program '
          'without obligations was handled')
EDITS = [('src/nagini_translation/service.py', '''
        start = time.time()
        try:
            self._reset_obligations()
            selected_set = set(selected) if selected else set()
''', '''
        start = time.time()
        try:
            if arp:
                self._reset_obligations()
            selected_set = set(selected) if selected else set()
''')]
DEMO = '''
import h
from h import S

seen = {}


def translate(path, jvm, bits, **k):
    # as main.translate(): switched off for programs that do not need it
    oc = h.config.obligation_config
    if path.endswith('plain.py') and oc.disable_all is None:
        oc.disable_all = True
    seen[path] = bool(oc.disable_all)
    return ['m'], []


def run():
    S.verify_program = lambda *a, **k: S.Success()
    s, m = h.service(translate, use_viper_server=False)
    h.config.use_viper_server = False
    assert s.verify('/x/live.py').success
    assert seen['/x/live.py'] is False
    s.verify('/x/plain.py')
    s.verify('/x/live.py')
    assert seen['/x/live.py'] is False, 'obligation checks were left out'


h.main(run)
'''
