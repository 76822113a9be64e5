PROPERTY = 'C15'
NEEDS = 'a Java exception in the backend, which leaves no verification result'
BREAKS = 'a crash of the backend ends the command line with the status of a success'
EDITS = [('src/nagini_translation/main.py', '''
        print(vresult.to_string(args.ide_mode, args.show_viper_errors))
        duration = ''', '''
        if vresult is not None:
            print(vresult.to_string(args.ide_mode, args.show_viper_errors))
        duration = '''),
         ('src/nagini_translation/main.py', '''
        return isinstance(vresult, verifier.Success)
''', '''
        return not isinstance(vresult, verifier.Failure)
''')]
DEMO = '''
import argparse
import os

import nagini_translation.main as M

M.translate = lambda *a, **k: (['m'], 'prog')
M.verify = lambda *a, **k: None         # a Java exception was printed
args = argparse.Namespace(select=None, int_bitops_size=8, sif=False, ignore_global=False,
                          verbose=False, skip_verification=False, extraction=False,
                          counterexample=False, float_encoding=None, ide_mode=False,
                          print_viper=False, write_viper_to_file=None, verifier='silicon',
                          viper_arg=None, benchmark=-1, submit_for_evaluation=False,
                          disable_branch_conditions=False, show_viper_errors=False)
try:
    r = M.translate_and_verify('/x/a.py', None, args)
except Exception:
    r = False
assert not r
'''
EXTRA = []
