"""tryseed.py NAME... [--as CHECK]: run the check of the seeded change's property on a copy with it."""
import json, os, shutil, subprocess, sys, tempfile, time
args = sys.argv[1:]
force = None
if '--as' in args:
    i = args.index('--as'); force = args[i + 1].split(','); del args[i:i + 2]
for n in args or sorted(os.listdir('/verif/seeded')):
    s = '/verif/seeded/' + n
    meta = json.load(open(s + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='try-'); d = tmp + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', d])
    subprocess.check_call(['git', '-C', d, 'apply', s + '/patch.diff'])
    for c in force or [meta['property']]:
        t = time.time()
        env = dict(os.environ, NAGINI_REPO=d, VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run(['/verif/check', c, '--tier', 'quick'], env=env, capture_output=True, text=True, cwd='/verif')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-28s %s exit %d %.0fs %s' % (n, c, r.returncode, time.time() - t, 'CAUGHT' if r.returncode == 1 and v else 'MISSED'), flush=True)
        print('     ', '\n      '.join(r.stdout.strip().splitlines()[-6:]), r.stderr[-600:] if r.returncode not in (0, 1) else '', flush=True)
    shutil.rmtree(tmp)
