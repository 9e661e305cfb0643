"""Builds and drives the replay probe (the real code of /repo)."""
import os, subprocess, shutil, select, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class BuildError(Exception):
    pass


def build(repo, scratch):
    """copies the probe crate to scratch with the path dependency on `repo`"""
    d = os.path.join(scratch, 'probe')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    t = open(os.path.join(VERIF, 'replay', 'Cargo.toml')).read().replace('path = "/repo"', 'path = "%s"' % repo)
    open(os.path.join(d, 'Cargo.toml'), 'w').write(t)
    shutil.copy(os.path.join(VERIF, 'replay', 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    shutil.copy(os.path.join(VERIF, 'replay', 'src', 'main.rs'), os.path.join(d, 'src', 'main.rs'))
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--target-dir', os.path.join(scratch, 'probe-target')],
                       cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    exe = os.path.join(scratch, 'probe-target', 'debug', 'probe')
    if p.returncode != 0 or not os.path.exists(exe):
        raise BuildError(p.stdout.decode(errors='replace')[-3000:])
    return exe


class Probe:
    def __init__(self, exe, timeout=60):
        self.exe = exe
        self.timeout = timeout
        self.p = None
        self.n = 0

    def start(self):
        self.p = subprocess.Popen([self.exe, 'batch'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''

    def ask(self, line):
        self.n += 1
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = (line + '\n').encode()
        w = threading.Thread(target=self._write, args=(data,)) if len(data) > 30000 else None
        if w:
            w.start()
        else:
            self._write(data)
        end = time.time() + self.timeout
        parts = [self.buf] if self.buf else []
        while not (parts and b'\n' in parts[-1]):
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.p.kill()
                self.p = None
                return 'HANG'
            c = os.read(self.p.stdout.fileno(), 1 << 20)
            if not c:
                self.p.wait()
                rc = self.p.returncode
                self.p = None
                return 'CRASH rc=%s' % rc
            parts.append(c)
        buf = b''.join(parts)
        l, self.buf = buf.split(b'\n', 1)
        if w:
            w.join()
        return l.decode()

    def _write(self, data):
        try:
            self.p.stdin.write(data)
        except (BrokenPipeError, ValueError, AttributeError):
            pass

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


def run_cases(probe, gen, deadline, stop_first=True):
    """-> (n, distinct, failures[, samples])"""
    fails, n, seen, samples = [], 0, set(), []
    timedout = False
    for line, exp in gen:
        if time.time() > deadline:
            timedout = True
            break
        got = probe.ask(line)
        n += 1
        seen.add(line)
        if callable(exp):
            why = None if False else exp(got)
        elif exp is None:
            why = 'panic' if got.startswith(('PANIC', 'CRASH', 'HANG')) else None
        else:
            why = None if got == exp else 'wrong answer'
        if why and got.startswith(('PANIC', 'CRASH', 'HANG')):
            why = got[:200]
        if len(samples) < 3 and n % 37 == 1:
            samples.append({'input': line[:200], 'answer': got[:200]})
        if why:
            fails.append({'input': line, 'got': got, 'expected': exp if isinstance(exp, str) else None, 'why': why})
            if stop_first:
                break
    return {'n': n, 'distinct': len(seen), 'fails': fails, 'samples': samples, 'timed_out': timedout}
