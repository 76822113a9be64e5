"""tools/twice.py CHECK FROM TO: every run twice; reports the ones that differ."""
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import boot
boot.pin()
boot.load()
from dst import props, runner as R, kernel as K

chk, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
base = R.scratch()
bad = n = 0
try:
    memo = R.base_warm(base)
    prop = props.PROPS[chk]
    hot = boot.hot_code()
    for w in range(R.NPOOL):
        env = R.Env(prop, int(os.environ.get('SEED', '1')), w, base, memo, hot)
        env.load_pool()
        for i in range(a, b):
            if i % R.NPOOL != w:
                continue
            plan = env.plan(i)
            x, y = env.run(plan), env.run(plan)
            n += 1
            if 'harness' in x or 'harness' in y:
                print(i, 'harness', x.get('harness'), y.get('harness'))
                continue
            if R.digest(x) != R.digest(y):
                bad += 1
                print('run', i, 'differs', plan.get('scenario'), x['steps'], y['steps'], plan.get('faults'))
                for g, h in zip(x['history'], y['history']):
                    p = [(t[1], t[2], t[3], {k: v for k, v in t[4].items() if k != 'fp'}) for t in (g, h)]
                    if p[0] != p[1]:
                        print('  ', str(p[0])[:500])
                        print('  ', str(p[1])[:500])
                        break
                sys.stdout.flush()
finally:
    os.chdir('/')
    shutil.rmtree(base)
print(chk, n, 'runs,', bad, 'differ')
