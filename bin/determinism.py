#!/opt/venv/bin/python
"""determinism.py [--runs=N] [PROP ...]: runs the same seeds in two fresh interpreters, with another
hash seed and another number of workers, and compares the digests of all executions."""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def child(prop, runs, workers):
    from sim import runner
    from sim.sched import sim_locks
    runner.prepare()
    mod = runner.scenario(prop)
    with sim_locks():
        getattr(mod, 'setup', lambda: None)()
    recs, dead, _ = runner.explore(mod, prop, int(os.environ.get('VERIF_SEED', '1')), 'quick',
                                   runs, workers)
    json.dump([[r['i'], r.get('name'), r.get('digest'), r.get('state'), r.get('harness')]
               for r in recs] + [['dead', d] for d in dead], sys.stdout)


def main():
    if sys.argv[1] == '--child':
        return child(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    runs, props = 200, []
    for a in sys.argv[1:]:
        if a.startswith('--runs='):
            runs = int(a[7:])
        else:
            props.append(a)
    if not props:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', 'props')
        props = sorted(f[:3].upper() for f in os.listdir(d) if f.startswith('c') and f.endswith('.py'))
    bad = 0
    for p in props:
        out = []
        for hs, w in (('0', 8), ('12345', 3)):
            env = dict(os.environ, PYTHONHASHSEED=hs, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
            out.append(json.loads(subprocess.check_output(
                [sys.executable, os.path.abspath(__file__), '--child', p, str(runs), str(w)],
                env=env)))
        diff = [(a, b) for a, b in zip(*out) if a != b]
        same = not diff and len(out[0]) == len(out[1])
        print(p, '%d executions' % len(out[0]), 'identical' if same else 'DIFFERENT %s' % diff[:2],
              flush=True)
        bad += not same
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
