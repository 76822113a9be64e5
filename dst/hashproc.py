"""One verifying process under another hash seed (started by disk.hash_process)."""

import json
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path = [p for p in sys.path if not p.endswith('/dst')]


def main():
    from dst import boot
    boot.load()
    from dst import disk, kernel
    with open(sys.argv[1]) as f:
        j = json.load(f)
    out = os.path.abspath(sys.argv[2])
    r = disk.process(j['op'], j['cfg'], [], j['clock'], seed=j['seed'], junk=j['junk'])
    r['log'] = []
    with open(out, 'wb') as f:
        pickle.dump(r, f)
    kernel.real_exit(0)


main()
