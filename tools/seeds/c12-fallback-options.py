PROPERTY = 'C12'
NEEDS = 'a backend server that cannot be started, and an option the direct backend is not given'
BREAKS = 'the direct backend used instead of the server runs without the branch-condition setting'
EDITS = [('src/nagini_translation/main.py', '''
    if backend == ViperVerifier.silicon:
        return Silicon(jvm, path, viper_args, counterexample, disable_branch_conditions)
''', '''
    if backend == ViperVerifier.silicon:
        return Silicon(jvm, path, viper_args, counterexample, sif)
''')]
DEMO = '''
import nagini_translation.main as M
from nagini_translation.lib import config

got = []
M.Silicon = lambda jvm, path, args, ce, disable: got.append(disable)
config.use_viper_server = True
for d in (True, False):
    # there is no JVM, so the server cannot be started
    M.get_verifier('/x/a.py', None, [], M.ViperVerifier.silicon, disable_branch_conditions=d)
assert got == [True, False], got
'''
EXTRA = []
