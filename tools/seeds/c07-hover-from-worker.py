PROPERTY = 'C07'
NEEDS = ('two runs of one document where the older one, too far along to be cancelled, delivers '
         'its result after the newer one was published')
BREAKS = ('the worker thread stores the diagnostics used for hovers, before it is known whether '
          'the run was superseded, so an old run overwrites those of the newest')
EDITS = [('src/nagini_translation/lsp_server.py', '''
        self._last_diagnostics[uri] = result.diagnostics
        self.text_document_publish''', '''
        self.text_document_publish'''),
         ('src/nagini_translation/lsp_server.py', '''
        return service.verify(path, selected=selected,
                              counterexample=self.counterexamples,
                              ignore_global=self.ignore_global, job_token=uri)
''', '''
        result = service.verify(path, selected=selected,
                                counterexample=self.counterexamples,
                                ignore_global=self.ignore_global, job_token=uri)
        if not result.cancelled:
            # Keep them for hovers.
            self._last_diagnostics[uri] = result.diagnostics
        return result
''')]
DEMO = '''
import asyncio
import threading

from lsprotocol import types as t
import nagini_translation.lsp_server as L
from nagini_translation.service import Diagnostic, VerifyResult


class Svc:
    def __init__(self):
        self.n, self.first = 0, threading.Event()

    def cancel(self, job_token=None):
        pass                    # too late, the result is on its way

    def verify(self, path, **kw):
        self.n += 1
        n = self.n
        if n == 1:
            self.first.wait(20)
        return VerifyResult(False, [Diagnostic(path, 5, 0, 5, 9, 'run %d' % n, 'c',
                                               counterexample='run %d' % n)], 0.1)


async def run():
    s = L.server
    s.service = svc = Svc()
    s.window_log_message = lambda p: None
    s.text_document_publish_diagnostics = lambda p: None
    uri = 'file:///x/a.py'
    a = asyncio.ensure_future(s.run_verification(uri))
    while svc.n < 1:
        await asyncio.sleep(0.01)
    await s.run_verification(uri)
    svc.first.set()
    await a
    h = L.hover(s, t.HoverParams(text_document=t.TextDocumentIdentifier(uri=uri),
                                 position=t.Position(line=4, character=0)))
    assert 'run 2' in h.contents.value, h

asyncio.run(run())
'''
EXTRA = []
