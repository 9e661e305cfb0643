#!/usr/bin/env python3
"""plant.py [ids...]: (re)creates /verif/seeded/<id> from the specs in
tools/plants/<id>.py, after confirming in a scratch copy that the change
builds, passes the stable tests, and that the demonstration passes without
and fails with it.  With --check also runs the property's check on it."""
import sys, os, json, subprocess, shutil, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCR = '/tmp/plant-%d' % os.getpid()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')

DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
husk = { path = "$repo" }
rand = { version = "^0.8", features = ["getrandom"] }
[profile.dev]
opt-level = 2
EOF
[ -f "$repo/Cargo.lock" ] && sed 's/^name = "husk"$/name = "husk"/' "$repo/Cargo.lock" > "$work/Cargo.lock"
cd "$work" || exit 9
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
cargo build --offline --quiet --target-dir "$work/target" || exit 9
exec timeout 120 "$work/target/debug/demo"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tests(d):
    p = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], d)
    o = p.stdout.decode(errors='replace')
    return p.returncode, set(re.findall(r'^test (\S+).*\.\.\. ok', o, re.M)), o


def plant(id, check):
    spec = {}
    exec(open(os.path.join(HERE, 'plants', id + '.py')).read(), spec)
    shutil.rmtree(SCR, True)
    subprocess.run(['cp', '-a', '/repo', SCR], check=True)
    for f, old, new in spec['edits']:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            return '%s: edit matches %d times in %s' % (id, s.count(old), f)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=SCR, stdout=subprocess.PIPE).stdout
    rc, ok, o = tests(SCR)
    stable = {x.split('::', 1)[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']}
    if not stable <= ok:
        return '%s: tests fail: %s %s' % (id, stable - ok, o[-1500:] if not ok else '')
    out = os.path.join(VERIF, 'seeded', id)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(out, 'demo.rs'), 'w').write((open(os.path.join(HERE, 'plants', '_server.txt')).read() if spec.get('server') else '') + (open(os.path.join(HERE, 'plants', '_rand.txt')).read() if spec.get('rand') else '') + spec['demo'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    a = sh([os.path.join(out, 'demo.sh')], '/repo')
    b = sh([os.path.join(out, 'demo.sh')], SCR)
    r = '%s: demo clean=%d planted=%d' % (id, a.returncode, b.returncode)
    if a.returncode != 0 or b.returncode in (0, 9, 124):
        shutil.rmtree(out)
        return r + ' BAD\n' + a.stdout.decode()[-800:] + '\n---\n' + b.stdout.decode()[-800:]
    if check:
        for pid in spec.get('checks', [spec['property']]):
            c = subprocess.run([sys.executable, os.path.join(VERIF, 'driver', 'check.py'), pid, '--repo', SCR], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = c.stdout.decode(errors='replace').strip().splitlines()
            r += '\n   %s rc=%d %s' % (pid, c.returncode, t[-1][:150] if t else '')
            for l in t:
                if 'failing input' in l or 'failed obligation' in l:
                    r += '\n      ' + l[:200]
    return r


ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, 'plants', '*.py')))
for i in ids:
    print(plant(i, '--check' in sys.argv), flush=True)
shutil.rmtree(SCR, True)
