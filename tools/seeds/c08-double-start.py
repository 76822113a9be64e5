PROPERTY = 'C08'
NEEDS = 'two documents opened at once before the verification service exists'
BREAKS = ('the service is constructed by every request that found it missing, so it is started '
          'more than once')
EDITS = [('src/nagini_translation/lsp_server.py', '''
        if self.service is None:
            with self._service_lock:
                if self.service is None:
                    self.service = VerificationService(**self.service_kwargs)
        return self.service
''', '''
        service = self.service
        if service is None:
            with self._service_lock:
                service = self.service = VerificationService(**self.service_kwargs)
        return service
''')]
DEMO = '''
import threading
import time

import nagini_translation.lsp_server as L

made = []


class Svc:
    def __init__(self, **kw):
        time.sleep(0.5)
        made.append(self)


L.VerificationService = Svc
ts = [threading.Thread(target=L.server.ensure_service) for _ in range(3)]
for t in ts:
    t.start()
for t in ts:
    t.join(20)
assert len(made) == 1, made
'''
EXTRA = []
