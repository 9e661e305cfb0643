"""Assemble the verifier's input from (a) the items extracted from /repo's
current source and (b) the contract overlays in /verif/contracts.

The executable text always comes from (a).  (b) only adds specification:
requires/ensures/invariants/decreases, ghost code (proof blocks), spec and
proof functions, trait spec members.
"""
import re, os, json, glob, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class FnContract:
    def __init__(self, key):
        self.key = key          # 'mod::path::fn' or 'mod::path::Type::fn'
        self.spec = ''
        self.ret = 'r'
        self.attrs = []
        self.loops = {}         # idx -> text
        self.loopnames = {}
        self.hints = []         # (where, text)
        self.external = None    # reason
        self.params = None
        self.src = ''


class ModOverlay:
    def __init__(self, path):
        self.path = path
        self.verbatim = []
        self.fns = {}
        self.consts = {}
        self.consthints = {}
        self.types = {}
        self.traits = {}
        self.impls = {}
        self.drops = {}
        self.uses = []
        self.retys = {}
        self.inherent = set()   # trait impls taken as inherent impls
        self.moved = set()      # traits whose default bodies go to their blanket impl


def parse_overlay(text, ov, origin):
    """directives: see contracts/README"""
    cur = ('spec', None)
    buf = []

    def flush():
        t = '\n'.join(buf)
        del buf[:]
        k, x = cur
        if k == 'spec':
            if t.strip():
                ov.verbatim.append(t)
        elif k == 'fn':
            x.spec += t
        elif k == 'loop':
            f, n = x
            f.loops[n] = f.loops.get(n, '') + t
        elif k == 'hint':
            f, w = x
            f.hints.append((w, t))
        elif k == 'const':
            ov.consts[x] = t
        elif k == 'consthint':
            ov.consthints[x] = t
        elif k == 'type':
            ov.types[x] = t
        elif k == 'trait':
            ov.traits[x] = ov.traits.get(x, '') + t
        elif k == 'impl':
            ov.impls[x] = ov.impls.get(x, '') + t
        elif k == 'drop':
            pass
    curfn = None
    for line in text.split('\n'):
        s = line.strip()
        if not s.startswith('//@'):
            buf.append(line)
            continue
        flush()
        d = s[3:].strip()
        w, _, rest = d.partition(' ')
        rest = rest.strip()
        if w == 'spec':
            cur = ('spec', None)
        elif w == 'fn':
            curfn = FnContract(rest)
            if rest in ov.fns:
                raise ValueError('%s: duplicate contract for %s' % (origin, rest))
            ov.fns[rest] = curfn
            cur = ('fn', curfn)
        elif w == 'ret':
            curfn.ret = rest
            cur = ('fn', curfn)
        elif w == 'params':
            curfn.params = rest.split()
            cur = ('fn', curfn)
        elif w == 'attr':
            curfn.attrs.append(rest)
            cur = ('fn', curfn)
        elif w == 'external':
            curfn.external = rest or 'trusted'
            cur = ('fn', curfn)
        elif w == 'loop':
            p = rest.split()
            cur = ('loop', (curfn, int(p[0])))
            if len(p) > 1:
                curfn.loopnames[int(p[0])] = p[1]
        elif w == 'hint':
            cur = ('hint', (curfn, rest))
        elif w == 'block':
            cur = ('hint', (curfn, 'block ' + rest))
        elif w == 'const':
            cur = ('const', rest)
        elif w == 'consthint':
            cur = ('consthint', rest)
        elif w == 'type':
            cur = ('type', rest)
        elif w == 'trait':
            cur = ('trait', rest)
        elif w == 'impl':
            cur = ('impl', rest)
        elif w == 'drop':
            n, _, why = rest.partition(' ')
            ov.drops[n] = why
            cur = ('drop', n)
        elif w == 'inherent':
            ov.inherent.add(norm(rest))
            cur = ('drop', rest)
        elif w == 'movedefaults':
            ov.moved.add(rest)
            cur = ('drop', rest)
        elif w == 'use':
            ov.uses.append(rest)
            cur = ('drop', rest)
        else:
            raise ValueError('%s: unknown directive %s' % (origin, s))
    flush()


def norm(s):
    return re.sub(r'\s+', '', s)


class FnView:
    """overlay of a trait's declaration: specification only"""
    def __init__(self, c):
        self.fns = {}
        if c:
            d = FnContract(c.key)
            d.spec, d.ret = c.spec, c.ret
            self.fns[c.key] = d


class Problem(Exception):
    pass


def load_overlays(extra=None):
    ovs = {}
    files = sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.rs')))
    texts = [(f, open(f).read()) for f in files]
    if extra:
        texts += extra
    for f, t in texts:
        # a file is a sequence of //@module sections
        parts = re.split(r'^//@module[ \t]*(.*)$', t, flags=re.M)
        for i in range(1, len(parts), 2):
            m = parts[i].strip()
            ov = ovs.setdefault(m, ModOverlay(m))
            parse_overlay(parts[i + 1], ov, os.path.basename(f))
    return ovs


def pretty(body):
    """one statement per line, so spans identify statements"""
    out = []
    i = 0
    depth = 0
    line = ''
    n = len(body)
    ind = 0
    paren = 0
    while i < n:
        c = body[i]
        if c == '"':
            j = i + 1
            while body[j] != '"':
                if body[j] == '\\':
                    j += 1
                j += 1
            line += body[i:j + 1]
            i = j + 1
            continue
        if c == "'" and i + 2 < n and (body[i + 2] == "'" or body[i + 1] == '\\'):
            j = body.index("'", i + 2)
            line += body[i:j + 1]
            i = j + 1
            continue
        if c in '([':
            paren += 1
        elif c in ')]':
            paren -= 1
        line += c
        if c == '{':
            out.append('    ' * ind + line.strip())
            line = ''
            ind += 1
        elif c == '}':
            pre = line[:-1].strip()
            if pre:
                out.append('    ' * ind + pre)
            ind = max(0, ind - 1)
            # keep `} else {`, `})`, `};` together
            line = '}'
            j = i + 1
            while j < n and body[j] in ' ;,)?':
                line += body[j]
                if body[j] == ')':
                    paren -= 1
                j += 1
            i = j - 1
            out.append('    ' * ind + line.strip())
            line = ''
        elif c == ';' and paren <= 0:
            out.append('    ' * ind + line.strip())
            line = ''
        elif c == '\n':
            if line.strip():
                out.append('    ' * ind + line.rstrip('\n'))
            line = ''
        i += 1
    if line.strip():
        out.append('    ' * ind + line.strip())
    return '\n'.join(out)


def fn_key(f):
    m = f['module']
    p = f['path']
    return p[len(m) + 2:] if m and p.startswith(m + '::') else p


class Gen:
    def __init__(self, items, ovs, external=None, noproof=None, only=None, verify=None, unfit=None):
        self.unfit = unfit or {}           # full fn path -> numbers of hints left out
        self.only = only
        self.verify = verify        # modules whose bodies are verified; the others' contracts are assumed
        self.items = items
        self.ovs = ovs
        self.external = external or {}     # full fn path -> reason
        self.noproof = noproof or {}       # full fn path -> reason (strip proof/invariants)
        self.lines = []
        self.regions = []   # (start_line, end_line, kind, name)
        self.problems = []  # (fn path, message)
        self.module_of = {}
        self.contracts = {}  # full path -> FnContract actually used
        self.fn_raw = {}
        self.trusted = []
        self.uncontracted = []

    def emit(self, s):
        for l in s.split('\n'):
            self.lines.append(l)

    def region(self, kind, name, s):
        a = len(self.lines) + 1
        self.emit(s)
        self.regions.append((a, len(self.lines), kind, name))

    # ------------------------------------------------------------------
    def signature(self, f, c, vis='pub '):
        ps = []
        for p in f['params']:
            if 'self' in p:
                ps.append(p['self'])
            else:
                ps.append('%s: %s' % (p['pat'], p['ty']))
        s = '%sfn %s%s(%s)' % (vis, f['name'], f['generics'], ', '.join(ps))
        if norm(f['ret']) != '()':
            s += ' -> (%s: %s)' % (c.ret if c else '__r', f['ret'])
        if f['where']:
            s += '\n    ' + f['where'].rstrip().rstrip(',') + ','
        return s

    def body(self, f, c, path):
        b = f['body']
        loops = {l['id'] for l in f['loops']}
        unit = norm(f['ret']) == '()'
        ins_before = {}
        ins_after = {}
        lstart, lend = {}, {}
        rethints = []
        strip = path in self.noproof
        loopinv = {}
        hints = list(c.hints) if c else []
        if c and not strip:
            for n, t in c.loops.items():
                if n not in loops:
                    self.problems.append((path, 'no loop %d' % n))
                else:
                    loopinv[n] = t
            if set(c.loops) and len(loops) > len(c.loops):
                self.problems.append((path, 'new loop'))
        if strip:
            hints = []
        start_h, end_h = [], []
        for hn, (w, t) in enumerate(hints):
            if hn in self.unfit.get(path, ()):
                self.problems.append((path, 'hint %d (%s) does not fit' % (hn, w)))
                continue
            parts = w.split()
            if parts[0] != 'block' and not t.lstrip().startswith('hide('):
                t = '\n// __H%d\n%s\n// __E\n' % (hn, t.strip('\n'))
            if w == 'start':
                start_h.append(t)
            elif w == 'ret':
                rethints.append(t)
            elif w == 'end':
                end_h.append(t)
            elif parts[0] == 'loop':
                n = int(parts[1])
                if n not in loops:
                    self.problems.append((path, 'no loop %d' % n))
                    continue
                if parts[2] == 'start':
                    lstart[n] = lstart.get(n, '') + '\n' + t
                elif parts[2] == 'end':
                    lend[n] = lend.get(n, '') + '\n' + t
                else:
                    # before/after: the statement that is the loop
                    sid = None
                    mm = re.search(r'__S(\d+) ;((?:(?!__S\d+ ;).)*?)__LF%d\b' % n, b) or \
                        re.search(r'__S(\d+) ;((?:(?!__S\d+ ;|__L[SE]).)*?)__LI%d\b' % n, b)
                    if not mm:
                        self.problems.append((path, 'loop %d is not a statement' % n))
                        continue
                    sid = int(mm.group(1))
                    d = ins_before if parts[2] == 'before' else ins_after
                    d[sid] = d.get(sid, '') + '\n' + t
            elif parts[0] == 'block':
                # give a block statement a contract of its own: it becomes the
                # body of a loop that runs exactly once
                m = re.match(r'block\s+/(.*)/\s*(?:#(\d+))?$', w)
                hits = [s for s in f['stmts'] if re.match(m.group(1), s['text']) and s['text'].lstrip().startswith('{')]
                k = int(m.group(2) or 0)
                if k >= len(hits) or hits[k]['tail'] or re.search(r'\b(break|continue|return|let)\b|\?', hits[k]['text']):
                    self.problems.append((path, 'lost block %s' % w))
                    continue
                sid = hits[k]['id']
                spec, _, endh = t.partition('//--')
                ins_before[sid] = ins_before.get(sid, '') + '\n#[verifier::loop_isolation(true)] loop\n' + spec.rstrip() + '\n{'
                ins_after[sid] = endh + '\nbreak; }\n' + ins_after.get(sid, '')
            elif parts[0] in ('before', 'after'):
                m = re.match(r'(before|after)\s+/(.*)/\s*(?:#(\d+|\*))?$', w)
                if not m:
                    raise ValueError('bad hint ' + w)
                rx = re.compile(m.group(2))
                # innermost matching statements only: a block statement that
                # contains the match is not what the hint means
                if m.group(2).startswith('loop') and False:
                    pass
                hits = [s for s in f['stmts'] if rx.match(s['text'])]
                if m.group(3) == '*':
                    sel = hits
                else:
                    k = int(m.group(3) or 0)
                    sel = hits[k:k + 1]
                if not sel:
                    self.problems.append((path, 'lost anchor %s' % w))
                    continue
                for s in sel:
                    d = ins_before if m.group(1) == 'before' else ins_after
                    if m.group(1) == 'after' and s['tail']:
                        self.problems.append((path, 'anchor became tail %s' % w))
                        continue
                    d[s['id']] = d.get(s['id'], '') + '\n' + t
            else:
                raise ValueError('bad hint ' + w)

        def g(t):
            return ' \n' + t.strip('\n') + '\n '
        if end_h:
            # before the tail expression, or at the very end
            ft = [s for s in f['stmts'] if s['depth'] == 0 and s['tail']]
            if ft:
                ins_before[ft[0]['id']] = ins_before.get(ft[0]['id'], '') + '\n' + '\n'.join(end_h)
            else:
                k = b.rstrip().rfind('}')
                b = b[:k] + g('\n'.join(end_h)) + b[k:]
        b = re.sub(r'__S(\d+) ;', lambda m: g(ins_before[int(m.group(1))]) if int(m.group(1)) in ins_before else '', b)
        b = re.sub(r'__A(\d+) ;', lambda m: g(ins_after[int(m.group(1))]) if int(m.group(1)) in ins_after else '', b)
        b = re.sub(r'__LS(\d+) ;', lambda m: g(lstart[int(m.group(1))]) if int(m.group(1)) in lstart else '', b)
        b = re.sub(r'__LE(\d+) ;', lambda m: g(lend[int(m.group(1))]) if int(m.group(1)) in lend else '', b)

        def lf(m):
            n = int(m.group(1))
            if c and n in c.loopnames and not strip:
                return c.loopnames[n] + ':'
            return ''
        b = re.sub(r'__LF(\d+)\b', lf, b)
        b = re.sub(r'__LI(\d+)\b', lambda m: g(loopinv[int(m.group(1))]) if int(m.group(1)) in loopinv else '', b)
        if rethints and not unit:
            if '__TB' in b:
                b = b.replace('__TB', ' let __ret : %s = ' % f['ret'], 1)
                k = b.rindex('__TE')
                b = b[:k] + ' ;' + g('\n'.join(rethints)) + ' __ret ' + b[k + 4:]
            else:
                self.problems.append((path, 'no tail expression'))
        b = b.replace('__TB', '').replace('__TE', '')
        if start_h:
            k = b.index('{')
            b = b[:k + 1] + g('\n'.join(start_h)) + b[k + 1:]
        return b

    def free_methods(self, m, its, tr, impl, ov):
        """the default methods of a trait with a blanket impl, as free functions (rule T9 in DESIGN.md)"""
        t = [t for t in its if t['kind'] == 'trait' and t['name'] == tr][0]
        g = re.match(r'<(\w+):(.*)>$', norm(impl['generics']))
        if not g or norm(impl['self_ty']) != g.group(1) or impl['fns']:
            self.problems.append(((m + '::' if m else '') + tr, 'not a blanket impl: loop'))
            return []
        res = []
        for f in t['fns']:
            if 'body' not in f:
                continue
            h = dict(f)
            h['name'] = tr + '_' + f['name']
            h['generics'] = '< %s : ? Sized + %s >' % (g.group(1), g.group(2))
            h['params'] = []
            for p in f['params']:
                if 'self' in p:
                    q = norm(p['self'])
                    h['params'].append({'pat': '__self', 'ty': {'&mutself': '& mut ', '&self': '& '}.get(q, '') + g.group(1)})
                else:
                    h['params'].append(p)
            h['selfname'] = '__self'
            res.append((f, h))
        return res

    def moved_names(self, ov):
        names = {}
        for it in self.items:
            if it['kind'] == 'trait' and it['module'] == ov.path and it['name'] in ov.moved:
                for f in it['fns']:
                    names[f['name']] = it['name']
        return names

    def demove(self, s, f, ov):
        """rule T9 in text position: method calls and bounds"""
        if not ov or not getattr(ov, 'moved', None):
            return s
        if f.get('selfname'):
            s = re.sub(r'\bself\b', f['selfname'], s)
        for n, t in self.moved_names(ov).items():
            s = re.sub(r'(?<![\w.] )(?<![\w.])(\w+)\s*\.\s*%s\s*\(' % n, r'%s_%s(\1, ' % (t, n), s)
            s = re.sub(r'\b%s\s*::\s*%s\b' % (t, n), '%s_%s' % (t, n), s)
        return s

    def fn(self, f, ov, vis='pub ', spec=True, count=True, body=None):
        key = fn_key(f)
        path = (f['module'] + '::' if f['module'] else '') + key
        c = ov.fns.get(key) if ov else None
        if c is None and ov is not None:
            for k, v in ov.fns.items():
                if norm(k) == norm(key):
                    c = v
        self.fn_raw[path] = f.get('raw')
        if not count:
            pass
        elif c:
            self.contracts[path] = c
            self.module_of[path] = f['module']
        else:
            self.uncontracted.append(path)
        if ov and getattr(ov, 'moved', None) and 'body' in f:
            f = dict(f)
            for t in ov.moved:
                b = [i for i in self.items if i['kind'] == 'trait' and i['module'] == ov.path and i['name'] == t]
                if b:
                    f['generics'] = re.sub(r'\b%s\b' % t, b[0]['supertraits'], f['generics'])
            f['body'] = self.demove(f['body'], f, ov)
            if c:
                d = FnContract(c.key)
                d.__dict__.update(c.__dict__)
                d.spec = self.demove(c.spec, f, ov)
                d.loops = {k: self.demove(v, f, ov) for k, v in c.loops.items()}
                d.hints = [(w, self.demove(v, f, ov)) for w, v in c.hints]
                c = d
        s = ''
        ext = None
        if c is None and 'body' in f:
            # no contract: callers learn nothing about it
            ext = 'no contract'
        if path in self.external:
            ext = self.external[path]
        elif c and c.external:
            ext = c.external
            self.trusted.append((path, ext))
        elif c and self.verify is not None and f['module'] not in self.verify:
            ext = 'contract assumed here'
        if c:
            for a in c.attrs:
                s += a + '\n'
        if ext is not None and 'body' in f:
            s += '#[verifier::external_body]\n'
        s += self.signature(f, c, vis) + '\n'
        if c and c.spec.strip() and spec:
            s += c.spec.strip('\n') + '\n'
        if 'body' not in f:
            s = s.rstrip() + (body or ';')
            self.region('sig', path, s)
            return
        if ext is not None:
            s += '{ unimplemented!() }'
            self.region('ext', path, s)
            return
        s += pretty(self.body(f, c, path))
        self.region('fn', path, s)

    # ------------------------------------------------------------------
    def use_lines(self, it, mods):
        res = []
        for u in it['uses']:
            p = list(u['path'])
            n = u['name']
            full = '::'.join(p)
            if p[0] in ('std', 'core', 'alloc'):
                if p[1:2] == ['fmt'] or full in ('core::fmt', 'std::convert::TryInto', 'std::convert::TryFrom', 'std::iter::FromIterator'):
                    continue
                if p[1] == 'prelude' or (n == 'prelude' and p[-1] != 'io'):
                    continue
                if len(p) > 1 and p[1] in KEEP_STD:
                    q = p
                else:
                    q = ['crate', 'vshim'] + p[1:]
            elif p[0] in ('byteorder', 'rand', 'num', 'enum_primitive'):
                q = ['crate', 'vshim'] + p
            elif p[0] == 'crate' or p[0] == 'super' or p[0] == 'self':
                q = p
            else:
                q = p
            line = ('pub ' if it.get('pub') else '') + 'use ' + '::'.join(q)
            if n == '*':
                line += '::*'
            elif q[-1] != n:
                line += ' as ' + n
            res.append(line + ';')
        return res

    def module(self, m, name):
        ov = self.ovs.get(m)
        its = [i for i in self.items if i['module'] == m]
        if self.only is not None and m not in self.only:
            below = [i for i in its if i['kind'] == 'mod' and i['path'] not in SKIP_MODS
                     and any(o == i['path'] or o.startswith(i['path'] + '::') for o in self.only)]
            if name:
                self.emit('pub mod %s {' % name)
            for i in below:
                self.module(i['path'], i['name'])
            if name:
                self.emit('} // mod %s' % m)
            return
        if name:
            self.emit('pub mod %s {' % name)
        if name:
            self.emit('use vstd::prelude::*;')
        self.emit('use crate::vshim::*;')
        seen = set()
        for it in its:
            if it['kind'] == 'use':
                for l in self.use_lines(it, None):
                    if l not in seen:
                        seen.add(l)
                        self.region('use', m, l)
        if ov:
            for u in ov.uses:
                self.emit('use %s;' % u)
        self.emit('verus! {')
        if ov:
            for t in ov.verbatim:
                self.region('verbatim', m, t.strip('\n'))
        derives = {}
        for it in its:
            if it['kind'] == 'derive':
                t = it['trait'].replace(' ', '').split('::')[-1]
                derives.setdefault(norm(it['self_ty']), set()).add(t)
        used = set()
        for it in its:
            k = it['kind']
            if k in ('const', 'static'):
                n = it['name']
                if ov and n in ov.drops:
                    continue
                ens = ov.consts.get(n) if ov else None
                used.add(('const', n))
                if ens is not None and ens.strip():
                    s = 'pub exec %s %s: %s\n%s\n{ %s }' % (k, n, it['ty'], ens.strip('\n'), constinit(it, ov.consthints.get(n)))
                elif k == 'static':
                    s = 'pub exec static %s: %s = %s;' % (n, it['ty'], it['expr'])
                else:
                    s = 'pub const %s: %s = %s;' % (n, it['ty'], it['expr'])
                self.region('const', (m + '::' if m else '') + n, s)
            elif k == 'type':
                if ov and it['name'] in ov.drops:
                    continue
                self.region('type', it['name'], 'pub type %s%s = %s;' % (it['name'], it['generics'], it['ty']))
            elif k in ('struct', 'enum'):
                n = it['name']
                if ov and n in ov.drops:
                    continue
                s = ''
                ds = derives.get(norm(n), set())
                keep = [d for d in ('Copy', 'Clone', 'PartialEq', 'Eq', 'Default') if d in ds]
                hand = []
                if ov and n in ov.types:
                    s += ov.types[n].strip('\n') + '\n'
                    if 'noderive' in ov.types[n]:
                        keep = []
                if 'Default' in keep:
                    keep.remove('Default')
                if k == 'enum' and 'PartialEq' in keep:
                    keep.append('Structural')
                    if 'Eq' not in keep:
                        keep.append('Eq')
                if keep:
                    s += '#[derive(%s)]\n' % ', '.join(keep)
                self.region('type', (m + '::' if m else '') + n, s + pretty(it['text']))
                if 'Default' in ds:
                    self.region('type', n, '// #[derive(Default)] is specified in the overlay')
            elif k == 'fn':
                if ov and fn_key(it) in ov.drops:
                    continue
                self.fn(it, ov)
            elif k == 'trait':
                n = it['name']
                if ov and n in ov.drops:
                    continue
                sup = it['supertraits']
                self.emit('pub trait %s%s%s {' % (n, it['generics'], (' : ' + sup) if sup else ''))
                if ov and n in ov.traits:
                    self.region('verbatim', m, ov.traits[n].strip('\n'))
                for f in it['fns']:
                    if ov and n in ov.moved:
                        f = {a: b for a, b in f.items() if a != 'body'}
                        self.fn(f, FnView(ov.fns.get(fn_key(f))), vis='', count=False)
                    else:
                        self.fn(f, ov, vis='')
                self.emit('}')
            elif k == 'impl':
                key = it['key']
                nk = norm(key)
                dropped = False
                extra = None
                if ov:
                    for d in ov.drops:
                        if norm(d) == nk:
                            dropped = True
                    for d in ov.impls:
                        if norm(d) == nk:
                            extra = ov.impls[d]
                            used.add(('impl', d))
                if dropped:
                    continue
                tr = it['trait']
                if ov and nk in ov.inherent:
                    tr = ''     # the methods, under their own contracts
                head = 'impl%s %s%s %s {' % (it['generics'], (tr + ' for ') if tr else '', it['self_ty'], it['where'])
                self.emit(head)
                for t in it['types']:
                    if 'name' in t:
                        self.emit('type %s = %s;' % (t['name'], t['ty']))
                    else:
                        self.emit('const %s: %s = %s;' % (t['const'], t['ty'], t['expr']))
                if extra:
                    self.region('verbatim', m, extra.strip('\n'))
                for f in it['fns']:
                    if ov and fn_key(f) in ov.drops:
                        continue
                    self.fn(f, ov, vis='' if tr else 'pub ')
                if ov and tr in ov.moved:
                    free = self.free_methods(m, its, tr, it, ov)
                    for f, g in free:
                        self.fn({a: b for a, b in f.items() if a != 'body'}, None, vis='', count=False, body='{ %s(%s) }' % (
                            g['name'], ', '.join(['self'] + [p['pat'] for p in f['params'] if 'self' not in p])))
                    self.emit('}')
                    for f, g in free:
                        self.fn(g, ov)
                    continue
                self.emit('}')
            elif k == 'derive':
                t = it['trait'].replace(' ', '').split('::')[-1]
                if t == 'Default' and not (ov and it['self_ty'] in ov.drops):
                    pass
        self.emit('} // verus!')
        if ov:
            have = {norm(fn_key(f)) for it in its for f in ([it] if it['kind'] == 'fn' else it.get('fns', []))}
            for k in ov.fns:
                if norm(k) not in have:
                    self.problems.append(((m + '::' if m else '') + k, 'function under contract not found'))
            for k in ov.impls:
                if ('impl', k) not in used:
                    self.problems.append(((m + '::' if m else '') + k, 'impl not found'))
        for it in its:
            if it['kind'] == 'mod':
                if it['path'] in SKIP_MODS:
                    continue
                if self.only is not None and not any(o == it['path'] or o.startswith(it['path'] + '::') for o in self.only):
                    continue
                self.module(it['path'], it['name'])
        if name:
            self.emit('} // mod %s' % m)

    def crate(self, shim):
        self.emit('#![allow(unused_imports, dead_code, non_camel_case_types, non_upper_case_globals, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, unreachable_code, unused_comparisons, ellipsis_inclusive_range_patterns)]')
        self.emit('#![verifier::loop_isolation(false)]')
        self.emit('#![verifier::allow(autoderive_clone_without_spec)]')
        self.region('shim', 'vshim', shim)
        self.emit('use vstd::prelude::*;')
        self.module('', '')
        self.emit('fn main() {}')
        return '\n'.join(self.lines) + '\n'

    def locate(self, line):
        best = None
        for a, b, k, n in self.regions:
            if a <= line <= b:
                if best is None or (b - a) < (best[1] - best[0]):
                    best = (a, b, k, n)
        return best


KEEP_STD = {'ops', 'option', 'result', 'vec', 'boxed', 'clone', 'marker', 'cmp', 'default', 'string', 'slice', 'primitive'}
SKIP_MODS = {'test', 'macros'}


def constinit(it, hint):
    if hint and '__ret' not in hint:
        return hint.strip('\n') + '\n' + it['expr']
    if hint:
        return 'let __ret: %s = %s;\n%s\n__ret' % (it['ty'], it['expr'], hint.strip('\n'))
    return it['expr']
