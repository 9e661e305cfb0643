#!/usr/bin/env python3
"""check.py Cxx [--repo DIR] [--keep DIR]: decides one property on /repo's
current working tree.  See DESIGN.md, section "A run"."""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, hashlib, random, argparse, atexit

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import assemble, shimgen, libcheck, probe as probemod
from props import PROPS

T0 = time.time()
BUDGET = 780.0          # seconds for the whole run


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Frontend(Exception):
    """the current tree cannot be turned into verifier input at all"""


# ---------------------------------------------------------------- extraction
def build_extractor(scratch):
    tgt = os.path.join(scratch, 'extract-target')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--target-dir', tgt], cwd=os.path.join(VERIF, 'extract'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    exe = os.path.join(tgt, 'debug', 'husk-extract')
    if p.returncode or not os.path.exists(exe):
        raise Frontend('the extractor does not build: ' + p.stdout.decode(errors='replace')[-1500:])
    return exe


def expand(repo, scratch):
    out = os.path.join(scratch, 'expanded.rs')
    with open(out, 'wb') as f:
        p = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--target-dir', os.path.join(scratch, 'expand-target'),
                            '--', '-Zunpretty=expanded'], cwd=repo, stdout=f, stderr=subprocess.PIPE, timeout=300)
    if p.returncode:
        raise Frontend('macro expansion fails: ' + p.stderr.decode(errors='replace')[-1500:])
    return out


def extract(exe, expanded, scratch, ovs, names=True):
    known = os.path.join(scratch, 'known.txt')
    with open(known, 'w') as f:
        for m, o in ovs.items():
            for k in o.fns:
                f.write(((m + '::') if m else '') + k + '\n')
    nm = os.path.join(VERIF, 'contracts', 'names.txt')
    p = subprocess.run([exe, expanded, known] + ([nm] if names and os.path.exists(nm) else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode:
        raise Frontend('extraction fails: ' + p.stderr.decode(errors='replace')[-1500:])
    return json.loads(p.stdout)


# ---------------------------------------------------------------- verus
def run_verus(src, verify, scratch, name, rlimit=None, extra=()):
    path = os.path.join(scratch, name + '.rs')
    with open(path, 'w') as f:
        f.write(src)
    cmd = ['verus', path, '--crate-type=lib', '--output-json', '--time-expanded', '--error-format=json', '--triggers-mode', 'silent',
           '--multiple-errors', '5']
    for m in verify:
        cmd += ['--verify-only-module', m]
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    cmd += list(extra)
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(20, left() - 60), cwd=scratch)
        out, errtxt, rc = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, errtxt, rc = '', '', 'timeout'
    diags = []
    for l in errtxt.splitlines():
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        res = json.loads(out[out.index('{'):])
    except ValueError:
        res = {}
    return {'rc': rc, 'diags': [d for d in diags if d.get('level') == 'error'], 'res': res, 'cmd': ' '.join(cmd), 'wall': time.time() - t,
            'stderr': errtxt}


def fn_times(res):
    """function -> {mode, ms, rlimit, success} of everything the solver was asked"""
    d = {}
    smt = res.get('times-ms', {}).get('smt', {})
    for m in smt.get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            k = f['function']
            e = d.setdefault(k, {'mode': f.get('mode:', f.get('mode', '')), 'micros': 0, 'rlimit': 0, 'success': True})
            e['micros'] += f.get('time-micros', 0)
            e['rlimit'] += f.get('rlimit', 0)
            e['success'] = e['success'] and f.get('success', False)
    return d


VERIF_MSG = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion fail|invariant not satisfied|underflow/overflow|'
                       r'possible division by zero|decreases not satisfied|recommendation not met|unable to prove|could not prove|'
                       r'cannot show invariant|possible arithmetic|bit shift|termination|unreachable|possible bit|loop invariant|'
                       r'out of (range|bounds)|may be|match.*exhaust|assert_by|assert_bitvector|failed to prove|constructed value may fail|trait method|split assertion|not hold|loop must have a decreases|requires')
RLIMIT_MSG = re.compile(r'[Rr]esource limit|rlimit')


def classify(run, gen):
    """-> (obligation failures {fn: [diag]}, rlimit fns, front-end {fn|None: [diag]})"""
    fails, rl, fe = {}, {}, {}
    vir_error = run['res'].get('verification-results', {}).get('encountered-vir-error', True)
    for d in run['diags']:
        m = d['message']
        if m.startswith('aborting due to') or 'could not compile' in m:
            continue
        where = None
        tags = set()
        for s in sorted(d.get('spans', []), key=lambda s: not s.get('is_primary')):
            r = gen.locate(s['line_start'])
            if r and r[2] in ('fn', 'const', 'ext', 'sig', 'verbatim', 'shim', 'type', 'use'):
                if where is None or (r[2] in ('fn', 'const') and where[2] not in ('fn', 'const')):
                    where = r
        # tags on the clause the message is about
        for s in d.get('spans', []):
            for ln in range(s['line_start'], s['line_end'] + 1):
                if 0 < ln <= len(gen.lines):
                    for t in re.findall(r'\[((?:C\d\d[ ,]*)+)\]', gen.lines[ln - 1]):
                        tags |= set(re.findall(r'C\d\d', t))
        e = {'message': m, 'lines': [s['line_start'] for s in d.get('spans', []) if s.get('is_primary')], 'rendered': d.get('rendered', '')[:3000], 'tags': sorted(tags), 'kind': where[2] if where else None}
        key = where[3] if where else None
        if where and where[2] == 'verbatim':
            key = 'lemmas of ' + where[3]
        if RLIMIT_MSG.search(m):
            rl.setdefault(key, []).append(e)
        elif d.get('code') is None and VERIF_MSG.search(m) and not vir_error:
            fails.setdefault(key, []).append(e)
        else:
            fe.setdefault(key, []).append(e)
    return fails, rl, fe


def scan_trusted(src, gen):
    """what the verifier takes on trust in this input, found mechanically"""
    t = []
    lines = src.split('\n')
    for i, l in enumerate(lines):
        if 'assume_specification' in l:
            t.append('assumed specification of ' + re.sub(r'\s+', ' ', l.split('assume_specification')[1]).strip()[:90])
        if re.search(r'\b(assume|admit)\s*\(', l) and 'assume_specification' not in l:
            t.append('assume at %s: %s' % ((gen.locate(i + 1) or (0, 0, '', '?'))[3], l.strip()[:80]))
        if 'external_body' in l or 'external_fn_specification' in l or 'verifier::axiom' in l or re.search(r'\baxiom fn', l):
            j = i
            while j < len(lines) and not re.search(r'\bfn\s+\w+|struct\s+\w+', lines[j]):
                j += 1
            r = gen.locate(i + 1)
            if r and r[2] == 'ext':
                continue
            if j < len(lines):
                t.append('%s: %s' % ('stand-in for a library item' if r and r[2] == 'shim' else 'trusted', re.sub(r'\s+', ' ', lines[j].strip())[:110]))
    return sorted(set(t))


LEAN_AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def run_lean(files, scratch):
    """the theorems the files end in -> (checked by Lean?, detail).  The files are read as one.  Independent of /repo:
    never a verdict, only what the evidence may call proved."""
    res = {}
    if not files:
        return res
    texts = [open(os.path.join(VERIF, 'contracts', f)).read() for f in files]
    where = {n: f for f, t in zip(files, texts) for n in re.findall(r'^#print axioms (\S+)', t, re.M)}
    path = os.path.join(scratch, 'lemmas.lean')
    with open(path, 'w') as o:
        for keep in (True, False):
            for t in texts:
                o.write(''.join(l for l in t.splitlines(True) if l.startswith('import ') == keep))
    t0 = time.time()
    try:
        p = subprocess.run(['lean', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out, rc = p.stdout.decode(errors='replace'), p.returncode
    except (OSError, subprocess.TimeoutExpired) as e:
        out, rc = str(e), -1
    for n, f in where.items():
        m = re.search(r"'%s' (?:depends on axioms: \[([^\]]*)\]|does not depend on any axioms)" % re.escape(n), out)
        ax = {a.strip() for a in (m.group(1) or '').split(',') if a.strip()} if m else None
        ok = rc == 0 and ax is not None and ax <= LEAN_AXIOMS
        res[n] = {'file': f, 'checked': ok, 'seconds': round(time.time() - t0, 1), 'axioms': sorted(ax) if ax is not None else None}
        if not ok:
            res[n]['output'] = out[-600:]
    return res


class Result:
    pass


def prove(pid, cfg, items, ovs, shim, scratch):
    """the deductive part"""
    R = Result()
    R.external = {}
    R.bounded = {}          # functions out of the verifier's reach on this tree: reason
    R.failed = {}           # functions with a failed obligation
    R.lost = {}             # functions whose proof annotations no longer all attach: message
    R.log = []
    R.reruns = []           # the same obligations with other solver seeds
    R.unfit = {}            # hints that the front end rejects on this tree
    rl = cfg.get('rlimit')
    for attempt in range(16):
        g = assemble.Gen(items, ovs, external=R.external, only=set(cfg['modules']), verify=set(cfg['verify']), unfit=R.unfit)
        src = g.crate(shim)
        R.gen, R.src = g, src
        if attempt == 0:
            for path, msg in g.problems:
                if 'not found' in msg or 'loop' in msg:
                    R.bounded.setdefault(path, msg)
                else:
                    R.lost[path] = msg
                R.log.append('%s: %s' % (path, msg))
            lost = {p for p in R.bounded if p in g.contracts}
            if lost:
                for p in lost:
                    R.external[p] = R.bounded[p]
                continue
        run = run_verus(src, cfg['verify'], scratch, 'gen%d' % attempt, rlimit=rl, extra=cfg.get('verus', ()))
        R.run = run
        fails, rls, fe = classify(run, g)
        R.log.append('verus attempt %d: %.1fs rc=%s failures %s rlimit %s front-end %s' % (
            attempt, run['wall'], run['rc'], sorted(map(str, fails)), sorted(map(str, rls)), sorted(map(str, fe))))
        if run['rc'] == 'timeout':
            R.bounded['*'] = 'the verifier runs out of time'
            R.ok = False
            return R
        if fe:
            named = [k for k in fe if k in g.contracts or k in g.uncontracted]
            new = [k for k in named if k not in R.external]
            for k in list(new):
                hs = {hint_at(src, ln) for e in fe[k] for ln in e['lines'][:1]}
                if hs and None not in hs and not hs <= R.unfit.get(k, set()) and left() > 300:
                    R.unfit.setdefault(k, set()).update(hs)
                    R.lost[k] = fe[k][0]['message'][:200]
                    continue
                R.external[k] = fe[k][0]['message'][:200]
                R.bounded[k] = 'outside the verified subset on this tree: ' + fe[k][0]['message'][:200]
            if not new:
                R.bounded['*'] = 'the verifier rejects the input: ' + '; '.join(e['message'][:200] for v in fe.values() for e in v)[:600]
                R.fe = fe
                R.ok = False
                return R
            continue
        if rls and not fails and (rl or 10) < 200 * (cfg.get('rlimit') or 10) / 10 and left() > 200:
            rl = (rl or 10) * 4
            continue
        for k, v in rls.items():
            fails.setdefault(k, []).extend(v)
        R.ok = not fails and run['rc'] == 0 and run['res'].get('verification-results', {}).get('success', False)
        if fails and left() > 240:
            fails = again(fails, cfg, g, src, scratch, rl, R)
            R.ok = not fails
        R.failed = fails
        if not R.ok and not fails:
            R.bounded['*'] = 'the verifier gives no result'
        return R
    R.bounded['*'] = 'too many functions outside the verified subset'
    R.ok = False
    return R


def hint_at(src, line):
    """the number of the proof hint a line of the generated input belongs to"""
    lines = src.split('\n')
    for i in range(line - 1, max(0, line - 400), -1):
        m = re.match(r'\s*// __(H(\d+)|E)', lines[i])
        if m:
            return int(m.group(2)) if m.group(2) else None
    return None


def again(fails, cfg, g, src, scratch, rl, R):
    """the modules with failed obligations once more, with other seeds of the solver's search: what one run proves is
    proved -> the obligations that fail in every run"""
    mods = {max((m for m in cfg['verify'] if str(k).replace('lemmas of ', '').startswith(m)), key=len, default=None) for k in fails}
    mods = sorted(mods) if None not in mods else list(cfg['verify'])
    runs = {}

    def job(seed):
        extra = tuple(cfg.get('verus', ())) + ('--smt-option', 'smt.random_seed=%d' % seed, '--smt-option', 'sat.random_seed=%d' % seed)
        runs[seed] = run_verus(src, mods, scratch, 'again%d' % seed, rlimit=rl, extra=extra)
    ths = [threading.Thread(target=job, args=(k,)) for k in (1, 2)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for seed, run in sorted(runs.items()):
        if run['rc'] == 'timeout':
            continue
        f2, r2, fe = classify(run, g)
        if fe or None in f2 or not run['res']:
            continue
        R.reruns.append(run)
        R.log.append('again, seed %d: failures %s rlimit %s' % (seed, sorted(map(str, f2)), sorted(map(str, r2))))
        fails = {k: v for k, v in fails.items() if k in f2 or k in r2}
    return fails


def excused(k, R):
    """a failed obligation that refutes nothing: the annotations the proof needs do not attach to this tree's text, or
    the function calls a function of this tree that has no contract -> reason, else None"""
    if k is None or k.startswith('lemmas of'):
        return None
    if k in R.lost:
        return 'a proof annotation does not attach: ' + R.lost[k]
    if k in R.inlined:
        return 'the code of %s, which has no contract, is verified in place' % R.inlined[k]
    if k.split('::')[-1] in R.looped:
        return 'a loop of another form'
    lines = R.src.split('\n')
    text = '\n'.join('\n'.join(lines[a - 1:b]) for a, b, kind, name in R.gen.regions if name == k and kind in ('fn', 'ext'))
    for u in R.gen.uncontracted:
        n = re.split(r'::', u)[-1]
        t = re.search(r' as ([\w:]+)[^>]*>::\w+$', u)
        if t and any(re.search(r'\b%s::%s$' % (re.escape(t.group(1)), re.escape(n)), c) for c in R.gen.contracts):
            continue        # the contract of the trait's method
        if n in ('clone', 'fmt', 'eq', 'new', 'get_mut'):
            continue
        if re.search(r'\b%s\s*(\(|::\s*<)' % re.escape(n), text):
            return 'calls %s, which has no contract' % u
    return None


def vacuity(cfg, items, ovs, shim, scratch, R):
    """every function under contract must be able to reach its body: assert(false) put there must fail"""
    ovs2 = {}
    for m, o in ovs.items():
        ovs2[m] = o
    g0 = R.gen
    src = R.src.split('\n')
    targets = {}
    for a, b, kind, name in g0.regions:
        if kind != 'fn' or name not in g0.contracts:
            continue
        mod = max((m for m in cfg['verify'] if name.startswith(m + '::')), key=len, default=None)
        if mod is None:
            continue
        # the body opens at the first line that is just '{' (pretty's layout)
        for i in range(a - 1, b):
            if src[i] == '{' or src[i].startswith('{ '):
                targets[name] = i
                break
    out = list(src)
    for name, i in targets.items():
        if src[i].strip() == '{' and src[i + 1].strip().startswith('hide('):    # hide() has to come first
            while src[i + 1].strip().startswith('hide('):
                i += 1
            targets[name] = i
            out[i] += ' assert(false);'
        else:
            out[i] = out[i].replace('{', '{ assert(false);', 1)
    run = run_verus('\n'.join(out), cfg['verify'], scratch, 'vacuity', rlimit=cfg.get('rlimit'), extra=cfg.get('verus', ()))
    hit = set()
    if not any('assertion failed' in d['message'] for d in run['diags']):
        return [], [], run      # the verifier did not get as far as the proofs
    for d in run['diags']:
        for s in d.get('spans', []):
            if s['line_start'] - 1 in targets.values() and 'assertion' in d['message']:
                hit |= {n for n, i in targets.items() if i == s['line_start'] - 1}
    return sorted(targets), sorted(set(targets) - hit), run


# ---------------------------------------------------------------- concrete search
# oracles whose long version takes a few seconds
CHEAP = {'c02', 'c04', 'c05', 'c06', 'c08', 'c09', 'c12', 'c13', 'c14', 'c15', 'c20', 'c22'}


def oracle(pid, cfg, exe, deep, seconds, seed):
    kind, name = cfg['oracle']
    if kind == 'both':
        r = oracle(pid, dict(oracle=('batch', name)), exe, deep, seconds / 2, seed)
        if not r['fails']:
            q = oracle(pid, dict(oracle=('session', pid)), exe, deep, seconds / 2, seed)
            q['n'], q['distinct'], q['samples'] = q['n'] + r['n'], q['distinct'] + r['distinct'], r['samples'][:1] + q['samples']
            q['timed_out'] = q['timed_out'] or r['timed_out']
            q['rule'] = r['rule'] + '; ' + q['rule']
            r = q
        return r
    if kind == 'batch':
        import oracle_crypto, oracle_items
        g = getattr(oracle_crypto, name, None) or getattr(oracle_items, name)
        p = probemod.Probe(exe)
        try:
            r = probemod.run_cases(p, g(random.Random(seed), deep), time.time() + seconds)
        finally:
            p.close()
        r['rule'] = 'one call of the real code per distinct input line, compared with an independent reference'
    else:
        import oracle_session
        r = oracle_session.run(exe, name, oracle_session.scenarios(name, random.Random(seed), deep), time.time() + seconds)
        r['rule'] = 'one session of the real client against an independent peer per distinct scenario'
    return r


def write_replay(pid, repo_head, what, body):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, what))
    json.dump(body, open(path, 'w'), indent=1)
    return path


def known_findings():
    res = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding:'):
                res.append(l)
    except OSError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--keep')
    a = ap.parse_args()
    pid = a.prop
    cfg = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    scratch = a.keep or tempfile.mkdtemp(prefix='husk-%s-' % pid)
    os.makedirs(scratch, exist_ok=True)
    if not a.keep:
        atexit.register(shutil.rmtree, scratch, True)
    deep = tier == 'thorough'

    # the three builds are independent
    box = {}

    def job(n, f, *x):
        try:
            box[n] = f(*x)
        except Exception as e:      # reported below
            box[n] = e
    ths = [threading.Thread(target=job, args=('extract', build_extractor, scratch)),
           threading.Thread(target=job, args=('expand', expand, a.repo, scratch)),
           threading.Thread(target=job, args=('probe', probemod.build, a.repo, scratch))]
    ths.append(threading.Thread(target=job, args=('lean', run_lean, cfg.get('lean', []), scratch)))
    for t in ths:
        t.start()
    for t in ths[:2]:
        t.join()
    ovs = assemble.load_overlays()
    R = None
    moved = []
    proof_note = None
    try:
        for n in ('extract', 'expand'):
            if isinstance(box[n], Exception):
                raise box[n]
        ex = extract(box['extract'], box['expand'], scratch, ovs)
        items = ex['items']
        moved = [l for l in ex['log'] if l.startswith(('inlined ', 'renamed ')) or l.startswith('loop rewritten ')]
        shim = shimgen.shim(os.path.join(VERIF, 'contracts', 'shim.rs.in'))
        log('extracted', len(items), 'items')
        R = prove(pid, cfg, items, ovs, shim, scratch)
        R.looped = {l.split(' in ', 1)[1] for l in moved if l.startswith('loop rewritten ')}
        R.inlined = {l.split(' into ', 1)[1]: l.split(' into ', 1)[0][8:] for l in moved if l.startswith('inlined ')}
        for l in R.log:
            log(l)
    except Exception as e:
        proof_note = '%s: %s' % (type(e).__name__, str(e)[:600])
        log('no deductive verification on this tree:', proof_note)
    ths[2].join()
    ths[3].join()
    lean = box['lean'] if isinstance(box['lean'], dict) else {}
    for n, r in lean.items():
        log('lean: %s %s' % (n, 'checked' if r['checked'] else 'NOT checked: ' + r.get('output', '')[:200]))
    exe = box['probe']
    if isinstance(exe, Exception):
        log('the probe does not build:', str(exe)[:500])
        exe = None

    # ------------------------------------------------ which failures count here
    rx = re.compile(cfg.get('fns', '.*'))
    mine, others = {}, {}
    if R:
        for k, v in R.failed.items():
            own = k is None or k.startswith('lemmas of') or rx.search(k)
            vv = [e for e in v if (not e['tags'] and not cfg.get('tag')) or pid in e['tags']]
            why = excused(k, R)
            if own and vv and why:
                R.bounded[k] = 'not proved on this tree (%s); %s' % (vv[0]['message'], why)
            elif own and vv:
                mine[k] = vv
            else:
                others[k] = v
    proof_complete = bool(R and R.ok and not R.bounded)
    vac = None
    if R and R.ok and left() > 120:
        vac = vacuity(cfg, items, ovs, shim, scratch, R)
        log('vacuity: %d functions, not refuted: %s' % (len(vac[0]), vac[1]))

    lib = None
    if deep and left() > 400:
        lib = libcheck.run(scratch, left() - 300)
        log('library contracts by Kani: %s verified of %s%s' % (lib.get('verified'), len(lib.get('harnesses', ())), '; REFUTED: %s' % lib['refuted'] if lib.get('refuted') else ''))

    # ------------------------------------------------ concrete runs
    need_deep = deep or not proof_complete
    orc = None
    if exe:
        secs = min(left() - 60, 240 if need_deep and not deep else 420 if deep else 60)
        secs = max(10, secs)
        orc = oracle(pid, cfg, exe, cfg['oracle'][1] in CHEAP, secs, seed)
        # more of them when the proof is incomplete, and with further seeds in the thorough tier
        end = time.time() + max(10, min(left() - 40, 420 if deep else 200))
        k = 0
        while need_deep and not orc['fails'] and (k == 0 or deep) and time.time() < end and k < 40:
            k += 1
            o2 = oracle(pid, cfg, exe, True, end - time.time(), seed + k)
            o2['n'] += orc['n']
            o2['distinct'] += orc['distinct']
            orc = o2
        log('concrete runs: %d, distinct %d, violations %d' % (orc['n'], orc['distinct'], len(orc['fails'])))

    # ------------------------------------------------ verdict
    violations = []
    if orc and orc['fails']:
        f = orc['fails'][0]
        body = {'property': pid, 'kind': 'failing input on the real code', 'what': f['why'],
                'how to replay': 'python3 /verif/driver/replay.py <this file>', 'oracle': cfg['oracle'], 'failure': f,
                'failed obligations': {str(k): v for k, v in mine.items()}}
        path = write_replay(pid, None, 'input', body)
        violations.append('VIOLATION property=%s replay=%s' % (pid, path))
        log('failing input:', f['why'][:300])
        for k, v in mine.items():
            log('failed obligation in %s: %s' % (k, v[0]['message']))
    elif mine:
        body = {'property': pid, 'kind': 'failed obligation', 'obligations': {str(k): v for k, v in mine.items()},
                'verifier': R.run['cmd'], 'verifier output': R.run['stderr'][-20000:]}
        path = write_replay(pid, None, 'obligation', body)
        for k, v in mine.items():
            log('failed obligation in %s: %s' % (k, v[0]['message']))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))

    # ------------------------------------------------ evidence
    times = fn_times(R.run['res']) if R and getattr(R, 'run', None) else {}
    under = []
    assumed = []
    if R:
        for p in sorted(R.gen.contracts):
            inside = R.gen.module_of.get(p) in cfg['verify']
            if p in R.external or p in [x for x, _ in R.gen.trusted]:
                continue
            (under if inside else assumed).append(p)
    asked = {k: v for k, v in times.items()}
    for run in (R.reruns if R else []):
        for k, v in fn_times(run['res']).items():
            if k in asked and v['success']:
                asked[k]['success'] = True
    obl = len(asked) + len(lean)
    dis = sum(1 for v in asked.values() if v['success']) + sum(1 for r in lean.values() if r['checked'])
    notes = []
    if R:
        for k, v in R.bounded.items():
            notes.append('BOUNDED on this tree (decided by the concrete runs only): %s: %s' % (k, v))
    if proof_note:
        notes.append('BOUNDED on this tree: no deductive verification: ' + proof_note)
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': R.run['cmd'] if R and getattr(R, 'run', None) else 'verus (not run)',
        'trusted_base': ['Verus 0.2026.09.13.671956e and its Z3', 'vstd specifications of the Rust standard library',
                         'the extraction rules of /verif/extract (list in DESIGN.md)'],
        'obligation unit': 'one function, constant or lemma whose verification conditions were sent to the solver in this run',
        'functions under contract, verified here': under,
        'functions whose contract is assumed here': assumed,
        'properties whose checks discharge them': cfg.get('deps', []),
        'functions without contract (callers learn nothing)': sorted(set(R.gen.uncontracted)) if R else [],
        'back end': 'Verus, Z3' + (' (%d obligations); Lean, Mathlib (%d lemmas)' % (len(asked), len(lean)) if lean else ''),
        'lean': lean,
        'library contracts checked on the library itself by Kani': lib or 'thorough tier only',
        'solver_ms': round(sum(v['micros'] for v in asked.values()) / 1000.0, 1),
        'runs repeated with other solver seeds': len(R.reruns) if R else 0,
        'put in place, renamed or rewritten by the extraction': moved,
        'slowest': sorted(((k, round(v['micros'] / 1000.0, 1)) for k, v in asked.items()), key=lambda x: -x[1])[:5],
        'verification complete': proof_complete,
        'vacuity': {'functions probed': len(vac[0]), 'body unreachable under the contract': vac[1]} if vac else 'not run',
        'concrete': {k: orc[k] for k in ('n', 'distinct', 'rule', 'samples', 'timed_out')} if orc else 'probe not built',
        'evaluations': orc['n'] if orc else 0, 'distinct_nontrivial': orc['distinct'] if orc else 0, 'samples': orc['samples'] if orc else [],
        'failed obligations of other properties seen': sorted(map(str, others)),
        'notes': notes,
    }
    if orc:
        cov['rule'] = orc['rule']
    assumptions = list(cfg.get('assumptions', []))
    if R:
        for t in scan_trusted(R.src, R.gen):
            w = next((n for n, r in lean.items() if r['checked'] and re.search(r'\b(proof )?fn axiom_%s\b' % n.split('.')[-1], t)), None)
            assumptions.append(t if w is None else 'translation: %s is the theorem %s of %s, which Lean checks in this run' % (t, w, lean[w]['file']))
        assumptions += ['trusted contract: %s: %s' % t for t in R.gen.trusted]
        assumptions += ['contract assumed here, discharged by the check of another property: ' + p for p in assumed]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': assumptions + notes,
          'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in known_findings():
        if 'property=%s ' % pid in l:
            print('KNOWN-FINDING: ' + l[len('finding:'):].strip())
    if vac and vac[1]:
        log('WARNING: contracts that exclude every execution:', vac[1])
    for n in notes:
        log(n)
    for v in violations:
        print(v, flush=True)
    if not violations:
        log('%s: held (%s)' % (pid, 'all %d obligations discharged' % dis if proof_complete else 'bounded: see the notes'))
    return 1 if violations else 0


def fallback():
    """the driver itself failed: the concrete runs alone decide"""
    pid = next((x for x in sys.argv[1:] if x in PROPS), None)
    repo = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv else '/repo'
    scratch = tempfile.mkdtemp(prefix='husk-%s-' % pid)
    atexit.register(shutil.rmtree, scratch, True)
    exe = probemod.build(repo, scratch)
    orc = oracle(pid, PROPS[pid], exe, True, max(20, min(200, left() - 40)), int(os.environ.get('VERIF_SEED', '1') or 1))
    log('BOUNDED on this tree: no deductive verification; concrete runs: %d, violations %d' % (orc['n'], len(orc['fails'])))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': 1, 'level': 'exploration',
               'coverage': {'evaluations': orc['n'], 'distinct_nontrivial': orc['distinct'], 'rule': orc['rule'], 'samples': orc['samples'],
                            'explanation': 'the deductive part failed to run'},
               'assumptions': [], 'wall_s': round(time.time() - T0, 2), 'violations': len(orc['fails'])},
              open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if orc['fails']:
        f = orc['fails'][0]
        path = write_replay(pid, None, 'input', {'property': pid, 'kind': 'failing input on the real code', 'what': f['why'], 'oracle': PROPS[pid]['oracle'], 'failure': f})
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        rc = fallback()
    sys.exit(rc)
