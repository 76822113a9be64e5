"""mkseed.py NAME...: build /verif/seeded/NAME from tools/seeds/NAME.py.

A definition sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python
text) and optionally EXTRA = [files of tools/seeds to lay beside it]. The change is
confirmed in a scratch copy: it applies, builds, passes the stable tests, and the
demonstration passes without and fails with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = '386efb4'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def build(name):
    ns = {}
    exec(open(os.path.join(HERE, 'seeds', name + '.py')).read(), ns)
    tmp = tempfile.mkdtemp(prefix='seed-')
    d = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', d])
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join(d, f)
            s = open(p).read()
            old, new = old.strip('\n'), new.strip('\n')
            assert s.count(old) == 1, (name, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], d).stdout
        # only lines of the original repository may be changed
        for f in {e[0] for e in ns['EDITS']}:
            blame = sh(['git', 'blame', '-s', '-l', f], '/repo').stdout.splitlines()
            n = 0
            for l in sh(['git', 'diff', '-U0', f], d).stdout.splitlines():
                if l.startswith('@@'):
                    n = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    h = blame[n - 1].split()[0].lstrip('^')
                    if not h.startswith(BASE):
                        print(name, 'NOTE: changes a line of', h[:8], ':', l)
                    n += 1
        out = os.path.join('/verif/seeded', name)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
        for e in ns.get('EXTRA', ['h.py']):
            shutil.copy(os.path.join(HERE, 'seeds', e), os.path.join(out, e))
        open(os.path.join(out, 'demo.sh'), 'w').write(
            '#!/bin/sh\n'
            'here=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$here" '
            'timeout 200 /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        away = os.path.join(tmp, 'away')
        shutil.copytree(out, away)
        for x in ('patch.diff', 'meta.json'):
            os.remove(os.path.join(away, x))
        r0 = sh([os.path.join(away, 'demo.sh')], '/repo')
        r1 = sh([os.path.join(away, 'demo.sh')], d)
        ok = r0.returncode == 0 and r1.returncode not in (0, 124)
        stable = ['-q', '-x', 'tests/servers']
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                'tests/servers'], d, env=dict(os.environ, PYTHONPATH=d + '/src'))
        print(name, 'unchanged', r0.returncode, 'patched', r1.returncode,
              (r1.stdout + r1.stderr).strip().splitlines()[-1:],
              '| tests:', t.stdout.strip().splitlines()[-1:], 'OK' if ok else 'BAD')
        if r0.returncode:
            print(r0.stdout[-1500:], r0.stderr[-3000:])
    finally:
        shutil.rmtree(tmp)


for n in sys.argv[1:]:
    build(n)
