"""Stand-ins for the JVM and the backend server, enough to drive the service."""
import logging
import os
import sys
import tempfile
import threading

logging.disable(logging.CRITICAL)
import nagini_translation.service as S          # noqa: E402
import nagini_translation.viper_server as V     # noqa: E402
import nagini_translation.verifier as VR        # noqa: E402
from nagini_translation.lib import config       # noqa: E402
from nagini_translation.lib.errors import error_manager as EM   # noqa: E402


class Any:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k):
        return Any()


class It:
    def __init__(self, l):
        self.l = list(l)

    def hasNext(self):
        return bool(self.l)

    def next(self):
        return self.l.pop(0)


class VFailure:
    """viper.silver.verifier.Failure: `ids` are error-manager item ids."""

    def __init__(self, ids):
        self.ids = ids

    def errors(self):
        return self

    def toIterator(self):
        return It(self.ids)


class Ns:
    def __init__(self, **k):
        self.__dict__.update(k)


class Jvm(Any):
    viper = None


class Job:
    def __init__(self, prog, path, args, backend):
        self.prog, self.path, self.args, self.backend = prog, path, list(args), backend
        self.ev = threading.Event()
        self.result = self.exc = None

    def finish(self, result=None, exc=None):
        if not self.ev.is_set():
            self.result, self.exc = result, exc
            self.ev.set()


class Manager:
    def __init__(self):
        self.started, self.jobs = True, []
        self.new = threading.Condition()
        self.auto = None
        self.jvm = jvm

    def submit(self, prog, path, args, backend='silicon'):
        j = Job(prog, path, args, backend)
        with self.new:
            self.jobs.append(j)
            self.new.notify_all()
        if self.auto:
            self.auto(j)
        return j

    def wait(self, n, timeout=20):
        with self.new:
            assert self.new.wait_for(lambda: len(self.jobs) >= n, timeout), 'no job'
        return self.jobs[n - 1]

    def await_result(self, j):
        if not j.ev.wait(60):
            raise Exception('never finished')
        if j.exc:
            raise j.exc
        return j.result

    def cancel_job(self, j):
        j.finish(exc=Exception('stopped'))

    def cancel_all(self):
        for j in list(self.jobs):
            self.cancel_job(j)

    def start(self):
        pass

    def stop(self):
        self.cancel_all()
        self.started = False

    def flush_cache(self):
        pass


class Err:
    """A converted error: fails like the real one if its item is unknown."""

    def __init__(self, item_id):
        item = EM._items[item_id]
        n = item.node
        self.position = Ns(file_name=n.file, line=n.line, column=0, line_end=n.line, column_end=5)
        self.identifier = self.full_id = n.code
        self.message = n.message
        self.reason = Ns(vias=[], position=Ns(line=n.line, column=0), string=lambda v: n.reason)
        self._vias, self._inputs, self.bcs = [], None, []

    def string(self, *a):
        return self.message


class FFailure(VR.VerificationResult):
    def __init__(self, errors, jvm, modules, sif):
        self.errors = [Err(e) for e in errors]

    def __bool__(self):
        return False


def item(file, line, code, message, reason):
    return EM.add_error_information(Ns(file=file, line=line, code=code, message=message,
                                       reason=reason), [], None, None)


jvm = Jvm()
_verifier = Any()
_verifier.Failure = VFailure
_silver = Any()
_silver.verifier = _verifier
jvm.viper = Any()
jvm.viper.silver = _silver


def service(translate, manager=None, **kw):
    """A real VerificationService over the stand-ins."""
    S.JVM = lambda cp: jvm
    S.load_sil_files = lambda *a: ('resources',) + a[1:]
    S.Failure = FFailure
    m = manager or Manager()
    V._MANAGER = m
    V.get_viper_server_manager = lambda j: m
    S.translate = translate
    s = S.VerificationService(z3_path='/z3', boogie_path='/boogie', viper_jar_path='/x.jar', **kw)
    return s, m


def go(fn, *a, **k):
    box = []
    t = threading.Thread(target=lambda: box.append(fn(*a, **k)), daemon=True)
    t.box = box
    t.start()
    return t


def answer(t, timeout=20):
    t.join(timeout)
    assert t.box, 'no answer in time'
    return t.box[0]


def end(ok=True):
    sys.stdout.flush()
    os._exit(0 if ok else 1)


def main(fn):
    import traceback
    try:
        fn()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(1)
    os._exit(0)
