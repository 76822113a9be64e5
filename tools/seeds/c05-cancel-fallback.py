PROPERTY = 'C05'
NEEDS = ('the actor of the job to be cancelled cannot be looked up in time while another '
         'verification is running')
BREAKS = 'a failed precise cancellation interrupts every running verification'
EDITS = [('src/nagini_translation/viper_server.py', '''
        except Exception:
            logging.exception('Error cancelling ViperServer job.')
''', '''
        except Exception:
            logging.exception('Error cancelling ViperServer job; interrupting the server.')
            self.cancel_all()
''')]
DEMO = '''
import h
from h import V


class Opt(h.Any):
    def isDefined(self):
        return True


def run():
    interrupted = []

    class Await(h.Any):
        def result(self, future, duration):
            if isinstance(future, str):
                interrupted.append(future)
                return None
            raise Exception('java.util.concurrent.TimeoutException')

    class Pool(h.Any):
        def lookupJob(self, j):
            return Opt()

    class Server(h.Any):
        def ver_jobs(self):
            return Pool()

        def getInterruptFutureList(self):
            return 'all'

    conc = h.Any()
    conc.Await = Await()
    h.jvm.scala = h.Any()
    h.jvm.scala.concurrent = conc
    m = V.ViperServerManager(h.jvm)
    m.server, m._started = Server(), True
    m.cancel_job(7)
    assert not interrupted, 'cancelling one job interrupted all of them'
    m.cancel_all()
    assert interrupted == ['all']


h.main(run)
'''
