"""Simulated operating-system processes: streams, argv and exit per process."""

import errno
import io
import json
import sys
import traceback

from . import engine as E
from . import hooks
from . import kernel as K
from . import world as W
from . import svc as SV


class Stdout:
    """Standard output of one simulated process (real io stack over a tap)."""

    def __init__(self, scen, proc, parser=None):
        self.scen, self.proc, self.parser = scen, proc, parser
        self.data = bytearray()
        self.broken = False
        self.foreign_data = []
        self.raw = W.Tee(self.tap)
        self.buffer = io.BufferedWriter(self.raw)
        self.text = io.TextIOWrapper(self.buffer, encoding='utf-8', line_buffering=False,
                                     write_through=True)
        self.encoding, self.errors = 'utf-8', 'strict'

    def tap(self, b):
        if self.broken or hooks.fault('stdout.epipe'):
            self.broken = True
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self.data += b
        if self.parser is not None:
            self.parser.feed(b)

    def foreign(self, s, who):
        """Bytes that reach the descriptor without Python's stream object."""
        self.foreign_data.append((who, s[:200]))
        self.tap(s.encode('utf-8', 'replace'))

    def write(self, s):
        n = self.text.write(s)
        return n

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        self.text.flush()

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def reconfigure(self, **kw):
        pass

    def close(self):
        pass

    closed = False


class Sink:
    """Standard error: kept apart and not judged."""
    encoding = 'utf-8'
    errors = 'replace'
    closed = False

    def __init__(self):
        self.n = 0
        self.tail = ''
        self.buffer = self

    def write(self, s):
        if isinstance(s, bytes):
            s = s.decode('utf-8', 'replace')
        self.tail = (self.tail + s)[-6000:]
        self.n += len(s)
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


class PerProc:
    """sys.stdout and friends: the stream of the calling simulated process."""

    def __init__(self, default):
        object.__setattr__(self, '_m', {})
        object.__setattr__(self, '_d', default)

    def _get(self):
        k = K.KERNEL
        if k is None or k.cur is None:
            return self._d
        return self._m.get(k.cur.proc, self._d)

    def __getattr__(self, a):
        return getattr(self._get(), a)


class ProcArgv(list):
    def __init__(self):
        super().__init__(['python'])
        self.m = {}

    def _l(self):
        k = K.KERNEL
        if k is None or k.cur is None:
            return ['python']
        return self.m.get(k.cur.proc, ['python'])

    def __getitem__(self, i):
        return self._l()[i]

    def __len__(self):
        return len(self._l())

    def __iter__(self):
        return iter(self._l())


class Frames:
    """Strict parser of LSP base-protocol frames; anything else is garbage."""

    def __init__(self, on_msg, on_bad):
        self.buf = bytearray()
        self.on_msg, self.on_bad = on_msg, on_bad
        self.bad = False

    def feed(self, b):
        if self.bad:
            return
        self.buf += b
        while True:
            i = self.buf.find(b'\r\n\r\n')
            if i < 0:
                # a header so far?
                t = bytes(self.buf[:64])
                h = b'Content-Length: '
                if t and not (t.startswith(h) or h.startswith(t)):
                    self.fail()
                elif len(self.buf) > 4096:
                    self.fail()
                return
            head = bytes(self.buf[:i]).split(b'\r\n')
            n = None
            for h in head:
                if h.startswith(b'Content-Length: ') and h[16:].isdigit():
                    n = int(h[16:])
                elif not h.startswith(b'Content-Type: '):
                    return self.fail()
            if n is None:
                return self.fail()
            if len(self.buf) < i + 4 + n:
                return
            body = bytes(self.buf[i + 4:i + 4 + n])
            try:
                m = json.loads(body.decode('utf-8'))
                assert isinstance(m, dict) and m.get('jsonrpc') == '2.0'
            except Exception:
                return self.fail()
            del self.buf[:i + 4 + n]
            self.on_msg(m)

    def fail(self):
        self.bad = True
        self.on_bad(bytes(self.buf[:200]))

    def finish(self):
        return not self.buf


class Lines(Frames):
    """Strict parser of newline-delimited JSON-RPC."""

    def feed(self, b):
        if self.bad:
            return
        self.buf += b
        while True:
            i = self.buf.find(b'\n')
            if i < 0:
                if self.buf and not self.buf.startswith(b'{'):
                    self.fail()
                return
            line = bytes(self.buf[:i])
            try:
                m = json.loads(line.decode('utf-8'))
                assert isinstance(m, dict) and m.get('jsonrpc') == '2.0'
            except Exception:
                return self.fail()
            del self.buf[:i + 1]
            self.on_msg(m)


class ProcScenario(SV.Scenario):
    """Scenarios whose code under test runs as whole processes."""

    logging_on = True

    def prepare(self):
        import logging
        self.err = Sink()
        self.stdout = PerProc(Sink())
        self.stderr = PerProc(self.err)
        self.stdin = PerProc(None)
        self.argv = ProcArgv()
        self.real = (sys.stdout, sys.stderr, sys.stdin, sys.argv)
        sys.stdout, sys.stderr, sys.stdin = self.stdout, self.stderr, self.stdin
        sys.argv = self.argv
        if self.logging_on:
            logging.disable(logging.NOTSET)
            for h in list(logging.root.handlers):
                logging.root.removeHandler(h)

    def spawn(self, proc, fn, argv, stdin=None, parser=None):
        """Start `fn` as the main thread of a new simulated process."""
        out = Stdout(self, proc, parser)
        self.stdout._m[proc] = out
        self.argv.m[proc] = list(argv)
        if stdin is not None:
            self.stdin._m[proc] = stdin
        self.w.out[proc] = out
        k = self.k

        def main():
            code = None
            try:
                fn()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                if isinstance(e.code, str):
                    self.stderr.write(e.code + '\n')
            except K.SimStuck:
                raise
            except KeyboardInterrupt:
                k.log('main_raised', proc=proc, exc='KeyboardInterrupt', at='')
                code = 130
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                self.stderr.write(traceback.format_exc())
                k.log('main_raised', proc=proc, exc='%s: %s' % (type(e).__name__, str(e)[:200]),
                      at='%s:%s' % (W.short(tb[-1].filename), tb[-1].name))
                code = 1
            k.log('main_end', proc=proc, code=code)
            try:
                out.flush()
            except ValueError:
                pass                    # closed by the server
            except OSError:
                code = 120              # as the interpreter does
            # the interpreter and the JVM wait for their non-daemon threads
            left = [e for e in self.w.executors if e.alive and getattr(e, 'proc', proc) == proc]
            if left:
                k.log('exit_waits', proc=proc, jvm_threads=len(left))
            k.block(lambda: not [e for e in left if e.alive], None, 'JVM threads')
            k.exit_proc(code)
        t = k.start_thread(main, name=proc, proc=proc)
        return t

    def exited(self, proc):
        return proc in self.k.exit_codes

    def wait_exit(self, proc, seconds):
        return self.k.block(lambda: self.exited(proc), seconds, 'exit of ' + proc)


class StdinPipe:
    """sys.stdin of a simulated process."""

    def __init__(self, k):
        self.pipe = W.PipeIn(k)
        self.buffer = io.BufferedReader(self.pipe)
        self.encoding = 'utf-8'
        self.closed = False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False
