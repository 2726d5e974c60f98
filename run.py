#!/usr/bin/env python3
"""check PID [--tier quick|thorough] [--task SUBSTR] [-v] | replay FILE | build"""
import json, os, sys
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(VENV, [VENV] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
if not os.environ.get('MPLCONFIGDIR'):
    import tempfile
    os.environ['MPLCONFIGDIR'] = os.path.join(tempfile.gettempdir(), 'verif-mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)


def main():
    a = sys.argv[1:]
    if a[0] == 'build':
        import cc
        for k in ('sym', 'plain', 'rnd', 'sch'):
            print(cc.build(k)[0])
        return 0
    import runner
    if a[0] == 'replay':
        spec = json.load(open(a[1]))
        if spec['cc']:
            import cc
            spec['lib'] = cc.build('sch' if spec.get('sched') else 'rnd' if spec['rng'] else 'plain')[0]
        import tempfile
        p = os.path.join(tempfile.mkdtemp(prefix='verif-replay-'), 'spec.json')
        json.dump(spec, open(p, 'w'))
        r = runner.run_replay_spec(p, 60)
        print(json.dumps(r, indent=1))
        bad = r['status'] in ('crash', 'timeout') or any(x['failed'] or x['exception'] for x in r['runs'])
        return 1 if bad else 0
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    only = a[a.index('--task') + 1] if '--task' in a else None
    return runner.run_check(a[1], tier, only, '-v' in a)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
