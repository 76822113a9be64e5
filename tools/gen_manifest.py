"""Writes MANIFEST.json from the registered checks (dst/props.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from dst import props            # noqa: E402

NA = {
    'C30': 'Soundness of the translation: a statement about what the generated Viper program means for '
           'all executions of a sequential input program. No schedule, clock, I/O or fault takes part, and '
           'the verdict comes from Viper/Z3, which is not installed; it needs proof or differential testing.',
    'C31': 'A pure function from a backend error to a Python position; no schedule, time, I/O or fault takes '
           'part. (That concurrent or faulty use does not disturb the mapping is part of C01-C04.)',
    'C32': 'A pure function from a program to accept/reject; nothing nondeterministic for a simulator to control.',
    'C33': 'A meta-theorem about the obligation encoding relating verified programs to all their executions; '
           'the program under analysis is never run by Nagini. Needs proof, and the real backend.',
    'C34': 'A meta-theorem about the product-program encoding; needs proof, and the real backend.',
    'C35': 'A pure function from program and selection to a Viper program; no nondeterminism. (Selections are part '
           'of the workloads of C01-C03, which compare with isolated runs.)',
    'C36': 'Depends on the contents of real Silicon/Z3 models, which do not exist here; no schedule or fault takes part.',
    'C37': 'A syntactic transformation of a program; no schedule, time, I/O or fault takes part.',
    'C38': 'The run-time contract functions are pure no-ops without state, time, I/O or concurrency.',
}
BUILDING = {}


def main():
    checks = []
    for id in sorted(props.PROPS):
        p = props.PROPS[id]
        checks.append(dict(
            property=id, quick_cmd='./check %s --tier quick' % id,
            thorough_cmd='./check %s --tier thorough' % id,
            technique='deterministic simulation with fault injection: ' + p.tech,
            level=p.level, level_note=p.note))
    na = [dict(property=k, reason=v) for k, v in sorted(NA.items())]
    for line in open(ROOT + '/properties.jsonl'):
        i = json.loads(line)['id']
        if i not in props.PROPS and i not in NA:
            na.append(dict(property=i, reason=BUILDING.get(i, 'simulation check not built yet')))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); '
             'import dst.kernel, dst.silver"',
             hooks=dict(guard='none: no hooks were added to /repo; every seam is one the code already has '
                        '(jpype, zmq, threading, queue, time, asyncio, os._exit, sys.stdin/stdout, mypy.build)',
                        enable='nothing to enable; the checks import /repo/src from the working tree',
                        source_commits=[]),
             checks=checks, not_applicable=na)
    with open(ROOT + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
