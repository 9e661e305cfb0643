#!/usr/bin/env python3
"""replay.py FILE [--repo DIR]: runs the failing input of a replay file on the
real code again and prints what happens.  Exit 1 if it still fails."""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import probe


def main():
    b = json.load(open(sys.argv[1]))
    repo = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv else '/repo'
    if 'failure' not in b:
        print('no failing input: the failed obligations are')
        for k, v in b['obligations'].items():
            for e in v:
                print(k + ':\n' + e['rendered'])
        return 0
    d = tempfile.mkdtemp(prefix='husk-replay-')
    try:
        exe = probe.build(repo, d)
        f = b['failure']
        if 'scenario' in f:
            import oracle_session
            v, note = oracle_session.run_scenario(exe, f['scenario'])
            bad = [t for p, t in v if p in (b['property'], '*')]
            print('outcome:', note, '; violations:', bad)
            return 1 if bad else 0
        p = probe.Probe(exe)
        a = p.ask(f['input'])
        p.close()
        print('input:   ', f['input'][:2000])
        print('answer:  ', a[:2000])
        print('expected:', f['expected'], '(%s)' % f['why'])
        return 1 if a == f['got'] else 0
    finally:
        shutil.rmtree(d, True)


sys.exit(main())
