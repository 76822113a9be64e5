"""Command line of the checks."""

import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path = [p for p in sys.path if not p.endswith('/dst')]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    from dst import boot
    boot.pin()
    boot.load()
    from dst import props, runner
    prop = props.PROPS[a.property]
    if a.replay:
        code = runner.replay(prop, a.replay)
    else:
        code = runner.run_check(prop, a.tier, a.seed, a.runs)
    sys.stdout.flush()
    sys.stderr.flush()
    from dst import kernel
    kernel.real_exit(code)


if __name__ == '__main__':
    main()
