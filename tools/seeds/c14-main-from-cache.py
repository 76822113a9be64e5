PROPERTY = 'C14'
NEEDS = 'a second run with a base directory in the same working directory'
BREAKS = ('only a stand-alone main module is type checked anew; one inside a package comes from '
          "mypy's cache, without the types Nagini needs")
EDITS = [('src/nagini_translation/lib/typeinfo.py', '''
                if id == '__main__' or id == module_name:
                    imports_not_handled''', '''
                if id == '__main__':
                    imports_not_handled''')]
DEMO = '''
import os
import tempfile

from nagini_translation.lib.typeinfo import TypeInfo

with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.mkdir('pkg')
    with open('pkg/a.py', 'w') as f:
        f.write('def f(x: int) -> int:\\n    y = x + 1\\n    return y\\n')
    for i in range(2):
        t = TypeInfo()
        t.check(d + '/pkg/a.py', d + '/pkg')
        got = sorted(str(k) for k in t.all_types)
        if i == 0:
            want = got
        assert want and got == want, (i, got, want)
    os.chdir('/')
'''
EXTRA = []
