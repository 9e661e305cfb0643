"""Kani on the library items that the proofs use by contract (libcheck/): the thorough tier's check of the stand-ins."""
import os, re, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def run(scratch, timeout=600):
    """-> {harness: verified?} and a note"""
    t0 = time.time()
    cmd = ['cargo', 'kani', '--output-format', 'terse', '-j', '4', '--target-dir', os.path.join(scratch, 'kani-target')]
    try:
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'libcheck'), env=dict(os.environ, CARGO_NET_OFFLINE='true'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode(errors='replace')
    except (OSError, subprocess.TimeoutExpired) as e:
        return {'note': 'not run: %s' % str(e)[:200]}
    names = sorted(set(re.findall(r'Checking harness (?:proofs::)?(\w+)', out)))
    bad = sorted(set(re.findall(r'Verification failed for - (?:proofs::)?(\w+)', out)))
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures', out)
    return {'command': ' '.join(cmd), 'harnesses': names, 'refuted': bad, 'verified': int(m.group(1)) if m else 0, 'all verified': bool(m) and m.group(2) == '0' and int(m.group(1)) == len(names),
            'all inputs (all_) or all inputs of the sizes used (sized_)': sum(1 for n in names if not n.startswith('upto_')),
            'bounded (upto_): slices of at most 5 bytes': sum(1 for n in names if n.startswith('upto_')), 'seconds': round(time.time() - t0, 1)}


if __name__ == '__main__':
    import json, sys, tempfile, shutil
    d = tempfile.mkdtemp(prefix='husk-kani-')
    try:
        r = run(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(json.dumps(r, indent=1))
    sys.exit(0 if r.get('all verified') else 1)
