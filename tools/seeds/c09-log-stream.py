PROPERTY = 'C09'
NEEDS = 'anything logged by the language server, e.g. a verification service that cannot be started'
BREAKS = 'the log goes to standard output, between the protocol messages'
EDITS = [('src/nagini_translation/lsp_server.py', '''
    logging.basicConfig(level=getattr(logging, args.log.upper(), logging.WARNING))
''', '''
    logging.basicConfig(level=getattr(logging, args.log.upper(), logging.WARNING),
                        stream=sys.stdout, force=True)
''')]
DEMO = '''
import json
import os
import subprocess
import sys

CHILD = """
import sys
import nagini_translation.lsp_server as L


class Svc:
    def __init__(self, **kw):
        raise Exception('no Viper')


L.VerificationService = Svc
sys.argv = ['lsp']
L.main()
"""


def msg(d):
    b = json.dumps(dict(d, jsonrpc='2.0')).encode()
    return b'Content-Length: %d\\r\\n\\r\\n' % len(b) + b


p = subprocess.Popen([sys.executable, '-c', CHILD], stdin=subprocess.PIPE,
                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdin.write(msg(dict(id=1, method='initialize', params=dict(
    processId=None, rootUri=None, capabilities={}))))
p.stdin.write(msg(dict(method='initialized', params={})))
p.stdin.write(msg(dict(method='textDocument/didOpen', params=dict(textDocument=dict(
    uri='file:///tmp/none.py', languageId='python', version=1, text='')))))
p.stdin.flush()
out = b''
while b'unavailable' not in out:
    b = os.read(p.stdout.fileno(), 65536)
    if not b:
        break
    out += b
p.stdin.close()
out += p.stdout.read()
while out:
    head, sep, rest = out.partition(b'\\r\\n\\r\\n')
    n = [int(l.split(b':')[1]) for l in head.split(b'\\r\\n') if l.startswith(b'Content-Length')]
    assert sep and n and head.startswith(b'Content-'), head[:300]
    json.loads(rest[:n[0]])
    out = rest[n[0]:]
'''
EXTRA = []
