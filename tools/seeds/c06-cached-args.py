PROPERTY = 'C06'
NEEDS = 'a change of the Z3 path after a request that used the old one'
BREAKS = ('the fixed part of the Silicon command line is kept from the first request, so a new '
          'prover path is acknowledged and reported but never used')
EDITS = [('src/nagini_translation/verifier.py', '''
    return [
        '--assumeInjectivityOnInhale',
        '--z3Exe', config.z3_path,
        '--disableCatchingExceptions',
        '--exhaleMode=2',
        '--alternativeFunctionVerificationOrder',
        '--z3ResourcesPerMillisecond=9000',
        '--disableDefaultPlugins',
        *(['--enableBranchconditionReporting']''', '''
    return [
        *_common_silicon_args(),
        *(['--enableBranchconditionReporting']'''),
         ('src/nagini_translation/verifier.py', '''
def build_silicon_backend_args(viper_args: List[str], counterexample: bool,
''', '''
@functools.lru_cache(maxsize=None)
def _common_silicon_args() -> List[str]:
    return [
        '--assumeInjectivityOnInhale',
        '--z3Exe', config.z3_path,
        '--disableCatchingExceptions',
        '--exhaleMode=2',
        '--alternativeFunctionVerificationOrder',
        '--z3ResourcesPerMillisecond=9000',
        '--disableDefaultPlugins',
    ]


def build_silicon_backend_args(viper_args: List[str], counterexample: bool,
'''), ('src/nagini_translation/verifier.py', '''
from abc import ABCMeta
''', '''
import functools

from abc import ABCMeta
''')]
DEMO = '''
import h


def run():
    s, m = h.service(lambda path, jvm, bits, **k: (['m'], []))
    m.auto = lambda j: j.finish('ok')
    for z3 in ('/z3', '/opt/other/z3'):
        assert s.reconfigure(z3_path=z3)['z3Path'] == z3
        assert s.verify('/x/a.py').success
        args = m.jobs[-1].args
        assert args[args.index('--z3Exe') + 1] == z3, args


h.main(run)
'''
