"""Runs of the real code: the Go driver, the judge that compares one run with
its contract, and the generator of inputs.  Used to replay the verifier's
counterexamples, to look for a failing input when an obligation is not
discharged, and to sample every function under contract on each check."""
import json, os, random, re, resource, shutil, subprocess, threading
import ir
from spec import SpecFile, ConcEnv, SIZES, SpecError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I64 = 1 << 63


# ---------------------------------------------------------------- driver
def build_driver(workdir, repo, tags, pkgs, specs):
    """copies the current sources of the packages next to the driver and builds"""
    d = os.path.join(workdir, 'driver')
    os.makedirs(d)
    src = os.path.join(VERIF, 'tool', 'driver')
    shutil.copy(os.path.join(src, 'main.go'), d)
    imps, regs = [], []
    gomod = open(os.path.join(src, 'go.mod')).read()
    for t in tags:
        # the import path may not be one that can be required (".../v1"), so
        # the copy gets another; nothing in the sources but imports names it
        out = os.path.join(workdir, 'src', t)
        path, name = pkgs[t].path, 'crunch.local/' + t + 'x'
        copy_sources(os.path.join(repo, t), out, path, name)
        gv = '1.17'
        try:
            m = re.search(r'^go (\S+)', open(os.path.join(repo, t, 'go.mod')).read(), re.M)
            gv = m.group(1) if m else gv
        except OSError:
            pass
        open(os.path.join(out, 'go.mod'), 'w').write('module %s\n\ngo %s\n' % (name, gv))
        imps.append('\t%s "%s"' % (t, name))
        errs = [n.rsplit('.', 1)[-1] for n in pkgs[t].globals]
        errs = [n for n in errs if re.match(r'^[A-Z]\w*Error$', n)]
        regs.append('\tperrs["%s"] = map[string]interface{}{\n%s\t}\n' % (
            t, ''.join('\t\t"%s": &%s.%s,\n' % (e, t, e) for e in sorted(errs))))
        regs.append('\tpkgs["%s"] = pkg{%s.NewBuffer, %s.NewMiniBuffer, map[string]interface{}{\n%s\t}}\n' %
                    (t, t, t, ''.join('\t\t"%s": %s.%s,\n' % (e, t, e) for e in sorted(errs))))
        gomod += '\nrequire %s v0.0.0\nreplace %s => %s\n' % (name, name, out)
    open(os.path.join(d, 'go.mod'), 'w').write(gomod)
    open(os.path.join(d, 'pkgs.go'), 'w').write(
        'package main\n\nimport (\n%s\n)\n\nfunc init() {\n%s}\n' % ('\n'.join(imps), ''.join(regs)))
    exe = os.path.join(workdir, 'drv')
    p = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=d, env=ir.goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError('building the driver failed:\n' + p.stderr)
    return exe


def copy_sources(a, b, path, name):
    os.makedirs(b)
    for root, dirs, files in os.walk(a):
        dirs[:] = [x for x in dirs if not x.startswith('.')]
        rel = os.path.relpath(root, a)
        for f in files:
            if f.endswith('_test.go') or f in ('go.mod', 'go.sum') or not f.endswith(('.go', '.s', '.h')):
                continue
            os.makedirs(os.path.join(b, rel), exist_ok=True)
            text = open(os.path.join(root, f)).read()
            text = text.replace('"%s"' % path, '"%s"' % name).replace('"%s/' % path, '"%s/' % name)
            open(os.path.join(b, rel, f), 'w').write(text)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(exe, runs, budget=120, patience=5):
    """results by run id; a run that kills or hangs the process gets
    {'crash': text} or {'timeout': True}"""
    res = {}
    todo = list(runs)
    restarts = 0
    while todo and restarts < 12:
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             preexec_fn=limits, env={'GOMAXPROCS': '2', 'HOME': '/tmp', 'GOTRACEBACK': 'none',
                                  'DRV_PATIENCE': str(patience)})
        data = ''.join(json.dumps(strip(r)) + '\n' for r in todo).encode()
        timer = threading.Timer(budget, p.kill)
        timer.start()
        try:
            out, err = p.communicate(data)
        finally:
            timer.cancel()
        at = None
        for ln in out.decode('utf8', 'replace').split('\n'):
            if not ln.strip():
                continue
            try:
                j = json.loads(ln)
            except ValueError:
                continue
            if 'at' in j:
                at = j['at']
            elif 'id' in j:
                res[j['id']] = j
        left = [r for r in todo if r['id'] not in res]
        if not left:
            break
        if at is not None and at not in res:
            res[at] = {'id': at, 'crash': err.decode('utf8', 'replace')[:400]}
            left = [r for r in left if r['id'] != at]
        elif len(left) == len(todo):
            break
        todo = left
        restarts += 1
    return res


def strip(r):
    return {k: v for k, v in r.items() if not k.startswith('_')}


# ---------------------------------------------------------------- judging
class Skip(Exception):
    pass


def snap_fields(s):
    return {'off': s['off'], 'cap': s['cap'], 'boff': s['boff'], 'bcap': s['bcap']}


def i64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >= I64 else v


def conc_params(c, args, arena):
    ps = {}
    for p, a in zip(c.params, args):
        k = a['k']
        if k == 'i':
            ps[p.name] = a['v']
        elif k == 'b':
            ps[p.name] = a['v']
        elif k == 'as':
            s, n, _ = a['p']
            ps[p.name] = ('slice', list(arena[s:s + n]), 'uint8')
        elif k == 's':
            ps[p.name] = ('slice', list(a['v'] or []), a['t'])
        else:
            ps[p.name] = None
    return ps


class Sparse:
    """n bytes, nearly all of them zero"""

    def __init__(self, n, nz):
        self.n, self.nz = n, nz

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, _ = i.indices(self.n)
            if hi - lo > 1 << 20:
                return Sparse(max(0, hi - lo), {k - lo: v for k, v in self.nz.items() if lo <= k < hi})
            return [self.nz.get(k, 0) for k in range(lo, hi)]
        if not -self.n <= i < self.n:
            raise IndexError(i)
        return self.nz.get(i % self.n, 0)

    def __setitem__(self, i, v):
        self.nz[i] = v

    def __eq__(self, o):
        return isinstance(o, Sparse) and self.n == o.n and not diff(self, o)

    def copy(self):
        return Sparse(self.n, dict(self.nz))


def diff(a, b):
    """where two pieces of memory of one length differ"""
    if isinstance(a, Sparse):
        return sorted(k for k in set(a.nz) | set(b.nz) if a[k] != b[k])
    return [i for i in range(min(len(a), len(b))) if a[i] != b[i]]


def memory(s, far):
    """arena and buffer contents of a snapshot"""
    if not far:
        return bytes.fromhex(s['arena']), list(bytes.fromhex(s['bytes']))
    if s.get('nz') is None or s['start'] < 0:
        raise Skip('elsewhere')
    a = Sparse(far, {i: v for i, v in s['nz']})
    lo = s['start']
    return a, Sparse(s['len'], {i - lo: v for i, v in a.nz.items() if lo <= i < lo + s['len']})


class Judge:
    """violations of contract c in one executed call, as (kind, text) pairs.
    kinds are those of the obligations."""

    def __init__(self, c, args, pre, r, base, far=0):
        self.far = far
        self.c, self.args, self.r, self.base = c, args, r, base
        self.pre = pre
        self.bad = []

    def add(self, kind, text):
        self.bad.append((kind, text))

    def run(self):
        c, pre, r = self.c, self.pre, self.r
        self.arena0, self.b0 = memory(pre, self.far)
        if len(self.b0) != pre['len']:
            raise Skip('large buffer')
        if not c.noinvariant and (pre['cap'] != pre['len'] or pre['bcap'] != 8 * pre['len']):
            raise Skip('representation invariant')
        self.params = conc_params(c, self.args, self.arena0)
        env = self.env = ConcEnv(snap_fields(pre), self.b0, self.params)
        env.storage = pre['scap']
        for p, a in zip(c.params, self.args):
            if p.given and p.given[0] == 'dyn' and a.get('k') not in ('s', 'as', 'bo') or a.get('k') == 'bo' and a['v'] not in ('LE', 'BE'):
                raise Skip('behaviour')
            if p.given and p.given[0] == 'int' and a['v'] != p.given[1]:
                raise Skip('behaviour')
            if p.given and p.given[0] == 'dyn' and p.type == 'interface' and a.get('k') in ('s', 'as'):
                t = a.get('t', 'uint8') if a['k'] == 's' else 'uint8'
                if '[]' + t != p.given[1]:
                    raise Skip('behaviour')
            if p.given and p.given[0] == 'dyn' and a.get('k') == 'bo' and ('little' in p.given[1]) != (a['v'] == 'LE'):
                raise Skip('behaviour')
        for q in c.requires:
            if not env.ev(q):
                raise Skip('precondition')
        if c.mini and c.ret and c.ret[0] == 'fresh':
            if env.ev(c.ret[2]) > len(self.params['out'][1]):
                raise Skip('destination too short')
        if r.get('stuck'):
            self.add('lock', 'the call does not return although the lock was released')
            return self.bad
        conds = [(e, bool(env.ev(x))) for e, x, al in c.panics]
        may = any(env.ev(x) for x in c.maypanics)
        must = [e for e, x in conds if x]
        if r.get('unlocked_write'):
            self.add('lock', 'the buffer changed while another goroutine held its lock')
        if r['locked']:
            self.add('lock', 'the lock is still held after the call')
        if r['panic']:
            self.panicked(must, may)
        else:
            if must:
                self.add('panic', 'returned normally; %s expected' % ' or '.join('a panic' if e == 'any' else e for e in must))
            else:
                self.returned()
        return self.bad

    def panicked(self, must, may):
        p, c = self.r['panic'], self.c
        anyok = may or 'any' in must
        if not must and not may:
            self.add('nopanic', 'panic although the arguments fit: %s' % ('/'.join(p['names'] or []) or p['s']))
            return
        if not anyok:
            want = ' or '.join(must) + ' expected'
            if p['k'] == 'rt':
                self.add('runtime', 'Go run-time panic: %s; %s' % (p['s'], want))
            elif not set(p.get('names') or []) & set(must):
                self.add('panic', 'panic with %s; %s' % ('/'.join(p.get('names') or []) or p['s'], want))
        self.panicframe()

    def panicframe(self):
        c = self.c
        post, pre = self.r['post'], self.pre
        for n in ('off', 'boff'):
            if post[n] != pre[n]:
                self.add('panicframe:' + n, '%s is %d after the panic, was %d' % (n, post[n], pre[n]))
        for n in ('cap', 'bcap', 'len'):
            if post[n] != pre[n]:
                self.add('panicframe', '%s is %d after the panic, was %d' % (n, post[n], pre[n]))
        a1, b1 = memory(post, self.far)
        skip = range(0)
        if c.onpanic:
            lo, hi = self.env.ev(c.onpanic[0]), self.env.ev(c.onpanic[1])
            for i in diff(b1, self.b0):
                for j in range(8):
                    if not lo <= 8 * i + j < hi and (b1[i] ^ self.b0[i]) >> (7 - j) & 1:
                        self.add('panicframe', 'bit %d changed by a call that panicked' % (8 * i + j))
                        return
            skip = self.span(0, pre['len'])
        elif b1 != self.b0 and len(b1) == len(self.b0):
            self.add('panicframe', 'contents changed by a call that panicked')
        self.arena('panicframe', self.span(0, pre['len']))
        self.argsame('panicframe')

    def header(self):
        post, pre = self.r['post'], self.pre
        if post['len'] != pre['len']:
            self.add('hdr', 'length is %d, was %d' % (post['len'], pre['len']))
        elif post['len'] and post['ptr'] != pre['ptr']:
            self.add('hdr', 'the buffer was moved')
        elif post['scap'] != pre['scap']:
            self.add('hdr', 'the storage of the buffer has room for %d bytes, was %d' % (post['scap'], pre['scap']))

    def span(self, lo, hi):
        s = self.pre['start']
        return range(s + lo, s + hi) if s >= 0 else range(0)

    def arena(self, kind, skip):
        a1, b1 = memory(self.r['post'], self.far)
        for i in diff(a1, self.arena0):
            if i not in skip:
                rel = i - self.pre['start'] if self.pre['start'] >= 0 else i
                self.add(kind, 'memory outside the buffer changed (address %d relative to the buffer, length %d)' % (rel, self.pre['len']))
                return

    def argsame(self, kind):
        for p, a, x in zip(self.c.params, self.args, self.r['args'] or []):
            if a['k'] == 's' and x['k'] == 's' and x.get('v') is not None and [int(v) for v in x['v']] != list(a['v'] or []):
                self.add(kind, 'argument %s was modified' % p.name)

    def returned(self):
        c, env, r, pre = self.c, self.env, self.r, self.pre
        post = r['post']
        sets = dict(c.sets)
        for n in ('off', 'boff'):
            want = env.ev(sets[n]) if n in sets else pre[n]
            if post[n] != want:
                self.add('field:' + n, '%s cursor is %d, must be %d' % ('byte' if n == 'off' else 'bit', post[n], want))
        if post['cap'] != post['len']:
            self.add('wf', 'capacity is %d but the buffer holds %d bytes' % (post['cap'], post['len']))
        if post['bcap'] != 8 * post['len']:
            self.add('wf', 'bit capacity is %d but the buffer holds %d bytes' % (post['bcap'], post['len']))
        b1 = memory(post, self.far)[1] if self.far or post['len'] <= 1 << 20 else None
        if c.grow is not None:
            n = env.ev(c.grow)
            if post['len'] != pre['len'] + n:
                self.add('result', 'length is %d, must be %d' % (post['len'], pre['len'] + n))
            if b1 is not None:
                if b1[:pre['len']] != self.b0:
                    self.add('content', 'existing bytes changed')
                elif any(b1[pre['len']:pre['len'] + n]):
                    self.add('content', 'new bytes are not zero')
            self.arena('frame', self.span(pre['len'], min(pre['scap'], pre['len'] + n)))
        elif c.rebuf:
            lo, hi = env.ev(c.rebuf[0]), env.ev(c.rebuf[1])
            if post['len'] != hi - lo:
                self.add('result', 'length is %d, must be %d' % (post['len'], hi - lo))
            elif b1 != self.b0[lo:hi]:
                self.add('content', 'remaining bytes differ')
            self.arena('frame', self.span(0, pre['scap']))
        else:
            self.header()
            want, touched = self.expected()
            if len(b1) == len(want):
                for i in diff(b1, want)[:1]:
                    if i in touched:
                        self.add('content', 'byte %d is 0x%02x, must be 0x%02x' % (i, b1[i], want[i]))
                    else:
                        self.add('frame', 'byte %d is 0x%02x, must be unchanged (0x%02x)' % (i, b1[i], want[i]))
            self.arena('frame', self.span(0, pre['len']))
        self.argsame('frame')
        if c.ret:
            self.result(r['out'] if c.mini else r['ret'])

    def expected(self):
        want = self.b0.copy()
        touched = set()
        for kind, var, elo, ehi, e in self.c.writes:
            lo, hi = self.env.ev(elo), self.env.ev(ehi)
            vals = []
            for y in range(lo, hi):
                vals.append((y, self.env.at(**{var: y}).ev(e)))
            for y, v in vals:
                if kind == 'bytes':
                    want[y] = v
                    touched.add(y)
                else:
                    i, m = y // 8, 0x80 >> (y % 8)
                    want[i] = (want[i] & ~m) | (m if v else 0)
                    touched.add(i)
        return want, touched

    def result(self, v):
        c, env = self.c, self.env
        k = c.ret[0]
        if v is None:
            self.add('result', 'no result')
            return
        if k in ('iwindow', 'ifresh'):
            want = {'[]uint8': ('[]uint8', '[]byte')}.get('[]' + c.ret[1] if k == 'ifresh' else '[]uint8',
                                                         ('[]' + str(c.ret[1]),))
            if v.get('dyn') not in want:
                self.add('result', 'result has type %s, must be %s' % (v.get('dyn'), want[0]))
                return
            k = k[1:]
        if k == 'scalar':
            e = env.ev(c.ret[2])
            got = int(v['v'])
            if got != e:
                self.add('result', 'result is %d, must be %d' % (got, e))
            return
        if k == 'bits64':
            e = 0
            for j in range(64):
                e |= env.at(**{c.ret[1]: j}).ev(c.ret[2]) << j
            got = int(v['v']) & ((1 << 64) - 1)
            if got != e:
                self.add('result', 'result is 0x%x, must be 0x%x' % (got, e))
            return
        got = [int(x) for x in v.get('v') or []]
        if k == 'window':
            lo, hi = env.ev(c.ret[1]), env.ev(c.ret[2])
            if v['len'] != hi - lo:
                self.add('result', 'result has length %d, must be %d' % (v['len'], hi - lo))
            elif hi > lo:
                if got != self.b0[lo:hi]:
                    self.add('result', 'result differs from the buffer contents')
                if v.get('ptr', 0) != self.pre['ptr'] + lo:
                    self.add('alias', "result is not the buffer's own storage")
            return
        n, w = env.ev(c.ret[2]), SIZES[c.ret[1]]
        want = [env.at(**{c.ret[3]: i}).ev(c.ret[4]) for i in range(n)]
        if c.mini and c.ret[0] == 'fresh':
            o = self.r['outpre']
            if v['len'] != o['len'] or (o['len'] and v.get('ptr') != o.get('ptr')):
                self.add('result', 'the destination slice was replaced')
                return
            old = [int(x) for x in o.get('v') or []]
            if got[:n] != want:
                i = next(i for i in range(n) if got[i] != want[i])
                self.add('result', 'element %d is 0x%x, must be 0x%x' % (i, got[i], want[i]))
            if got[n:] != old[n:]:
                self.add('dest', 'destination beyond the elements read changed')
            return
        if v['len'] != n:
            self.add('result', 'result has %d elements, must have %d' % (v['len'], n))
            return
        if got != want:
            i = next(i for i in range(n) if got[i] != want[i])
            self.add('result', 'element %d is 0x%x, must be 0x%x' % (i, got[i], want[i]))
        if n:
            p, q = v['ptr'], v['ptr'] + v['cap'] * w
            for lo, hi in ((self.base, self.base + len(self.arena0)), (self.pre['ptr'], self.pre['ptr'] + self.pre['scap']),
                           (self.r['post']['ptr'], self.r['post']['ptr'] + self.r['post']['scap'])):
                if p < hi and lo < q and hi > lo:
                    self.add('fresh', "result shares memory with the buffer")
                    break


def judge_call(c, args, pre, r, base, far=0):
    try:
        return Judge(c, args, pre, r, base, far).run()
    except Skip:
        return None


def judge_any(c, args, pre, r, base, siblings=()):
    """what must hold whatever the arguments are (verify_total)"""
    j = Judge(c, args, pre, r, base)
    if pre['cap'] != pre['len'] or pre['bcap'] != 8 * pre['len'] or len(pre['bytes']) != 2 * pre['len']:
        return None
    j.b0 = list(bytes.fromhex(pre['bytes']))
    j.arena0 = bytes.fromhex(pre['arena'])
    j.params = conc_params(c, args, j.arena0)
    j.env = ConcEnv(snap_fields(pre), j.b0, j.params)
    if r.get('stuck'):
        return [('lock', 'the call does not return although the lock was released')]
    if r.get('unlocked_write'):
        j.add('lock', 'the buffer changed while another goroutine held its lock')
    if r['locked']:
        j.add('lock', 'the lock is still held after the call')
    post = r['post']
    if (post['cap'] != post['len'] or post['bcap'] != 8 * post['len']) and (not r['panic'] or c.recv == 'Buffer'):
        j.add('wf', 'capacities are %d and %d but the buffer holds %d bytes' % (post['cap'], post['bcap'], post['len']))
    if any(p.name == 'n' and a['k'] == 'i' and a['v'] < -(1 << 62) for p, a in zip(c.params, args)):
        return j.bad
    if r['panic']:
        if c.recv == 'Buffer' and not any(a['k'] == 'bo' and a['v'] in ('PANIC', 'OWN') for a in args):
            # a panic although the arguments fit is not a rejection
            if not any(x[0] == 'nopanic' for bc in siblings for x in judge_call(bc, args, pre, r, base) or []):
                j.panicframe()
        return j.bad
    sets = dict(c.sets)
    for n in ('off', 'boff'):
        if n not in sets and post[n] != pre[n]:
            j.add('field:' + n, '%s cursor is %d, was %d' % ('byte' if n == 'off' else 'bit', post[n], pre[n]))
    if 'read' in c.groups:
        j.header()
        if post['len'] == pre['len'] and post['bytes'] != pre['bytes']:
            j.add('frame', 'contents changed by a read')
        j.arena('frame', j.span(0, pre['len']))
        j.argsame('frame')
    return j.bad


def judge_ctor(run, r):
    """construction: run has the input slices as arena ranges"""
    bad = []
    c = r['calls'][0]
    if c['panic']:
        return [('nopanic', 'construction panics: %s' % c['panic']['s'])]
    a0 = bytes.fromhex(run['arena'])
    post = c['post']
    if post['start'] == -2:
        return [('result', 'no buffer is returned')]
    ins = run['slices']
    cat = b''.join(a0[s:s + n] for s, n, _ in ins)
    if bytes.fromhex(post['arena']) != a0:
        bad.append(('frame', 'memory changed by the construction'))
    for n in ('off', 'boff'):
        if post[n] != 0:
            bad.append(('field:' + n, '%s is %d after construction' % (n, post[n])))
    if post['cap'] != post['len'] or post['bcap'] != 8 * post['len']:
        bad.append(('wf', 'capacities %d and %d for %d bytes' % (post['cap'], post['bcap'], post['len'])))
    if post['len'] != len(cat):
        bad.append(('result', 'length is %d, must be %d' % (post['len'], len(cat))))
    elif bytes.fromhex(post['bytes']) != cat:
        bad.append(('content', 'contents are not the concatenation'))
    if len(ins) == 1 and ins[0][1] and post['start'] != ins[0][0]:
        bad.append(('alias', 'the single input is not used as storage'))
    if len(ins) > 1 and post['len'] and post['start'] >= 0:
        bad.append(('fresh', 'storage is shared with an input'))
    if c['locked']:
        bad.append(('lock', 'lock held on return'))
    return bad


def judge_run(specs, run, res):
    """[(call index, contract, kind, text)] for a whole run; contract None for
    a run that ended badly"""
    if res is None:
        return []
    if res.get('timeout') and res.get('stage') != 'call':
        return []
    if res.get('timeout'):
        return [(0, None, 'term', 'the call does not return')]
    if 'crash' in res:
        return [(0, None, 'crash', 'the process died: ' + res['crash'])]
    if res.get('err'):
        raise RuntimeError('driver: ' + res['err'])
    out = []
    if res.get('errs'):
        out.append((len(run.get('calls') or [0]) - 1, None, 'errors', 'the package variable %s was reassigned' % res['errs']))
    if run.get('ctor'):
        return out + [(0, None, k, t) for k, t in judge_ctor(run, res)]
    pre = res['pre']
    if run.get('_total'):
        c = specs.of(run['pkg'], run['recv'], run['calls'][0]['fn'])[0]
        return out + [(0, c, k, t) for k, t in judge_any(c, run['calls'][0]['args'], pre, res['calls'][0], res['base'],
                                                                  specs.of(run['pkg'], run['recv'], run['calls'][0]['fn'])) or []]
    if str(run.get('mode')).startswith('swap') or run.get('mode') == 'relay':
        return out + judge_swap(specs, run, res)
    earlier = []
    for i, (call, r) in enumerate(zip(run['calls'], res['calls'])):
        for c in specs.of(run['pkg'], run['recv'], call['fn']):
            if len(c.params) != len(call['args']):
                continue
            v = judge_call(c, call['args'], pre, r, res['base'], total_size(run) if run.get('far') else 0)
            for k, t in v or []:
                out.append((i, c, k, t))
            if v is not None:
                x = r.get('ret') or {}
                if not c.mini and c.ret and c.ret[0] in ('fresh', 'ifresh') and x.get('len'):
                    m = (x['ptr'], x['ptr'] + x['cap'] * SIZES.get(x.get('t'), 1))
                    if any(m[0] < hi and lo < m[1] for lo, hi in earlier):
                        out.append((i, c, 'fresh', 'result shares memory with the result of an earlier call'))
                    earlier.append(m)
                break
        pre = r['post']
        if r.get('stuck'):
            break
    return out


def judge_swap(specs, run, res):
    """a call that waited for the lock while its holder changed the buffer:
    it must have acted on the buffer as it was when the lock came free"""
    call, r = run['calls'][0], res['calls'][0]
    at = r.get('swap')
    if at is None:
        return []
    lo, hi = run['buf'][0], run['buf'][0] + run['buf'][2]
    for a in call['args']:
        if a.get('k') == 'as' and a['p'][1] and a['p'][0] < hi and lo < a['p'][0] + a['p'][1]:
            return []                # the argument is part of the buffer
    for c in specs.of(run['pkg'], run['recv'], call['fn']):
        if len(c.params) != len(call['args']):
            continue
        judge = lambda pre, post: judge_call(c, call['args'], pre, dict(r, post=post), res['base'])
        if r.get('mid0'):
            # the change came after the call, in the middle of it, or before it
            k = c.ret[0] if c.ret else ''
            if c.grow is not None or 'window' in k or c.fname == 'ReadByte' or c.pkg == 'v1' and 'typed' in c.groups and c.ret:
                v = []
                if not r['panic'] and (r['post']['cap'] != r['post']['len'] or r['post']['bcap'] != 8 * r['post']['len']):
                    v = [('wf', 'capacities are %d and %d but the buffer holds %d bytes' % (r['post']['cap'], r['post']['bcap'], r['post']['len']))]
            else:
                v = judge(at, r['mid0'])
                if v:
                    v = judge(r['mid1'], r['post']) and v
        else:
            v = judge(at, r['post'])
        if v is None:
            continue
        if v and r['panic'] and not any(k in ('nopanic', 'panic', 'runtime') for k, t in judge(res['pre'], r['post']) or []):
            return []                # rejected before the change
        return [(0, c, 'atomic', t) for k, t in v if k != 'lock'][:3]
    return []


# ---------------------------------------------------------------- inputs
BIG = [I64 - 1, I64 - 2, I64 - 8, I64 - 7, -I64, -I64 + 1, 1 << 62, (1 << 62) - 1, 1 << 61, (1 << 61) - 1, (1 << 61) + 1,
       1 << 60, (1 << 60) + 1, 1 << 63 >> 3, 1 << 32, (1 << 31) - 1, -1, -2, -7, -8, -9]
MID = [100, 128, 200, 256, 257, 300, 384, 512, 640, 1000, 1024, 1100]
LONG = [2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 32770, 65536, 66000]
NS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65]


def harvest(pkg, fname, recv):
    """integer constants in the code reachable from a method"""
    import verify
    f = pkg.method(recv, fname) if recv else pkg.func(fname)
    if f is None:
        return []
    try:
        names = {f.name} | verify.reach(pkg, f.name)
    except Exception:
        names = [f.name]
    out = set()
    for n in names:
        g = pkg.funcs.get(n)
        if g is None:
            continue
        for m in re.findall(r'"i": "(-?\d{1,20})"', json.dumps(g.blocks)):
            out.add(int(m))
    return sorted(x for x in out if -(1 << 63) <= x < (1 << 64))


class Gen:
    def __init__(self, specs, pkgs, seed):
        self.specs, self.pkgs = specs, pkgs
        self.rng = random.Random(seed)
        self.n = 0
        self.consts = {}
        self.far = False         # in large buffers
        self.big = 0             # 1, 2: now and then long runs

    def cs(self, c):
        k = (c.pkg, c.recv, c.fname)
        if k not in self.consts:
            self.consts[k] = harvest(self.pkgs[c.pkg], c.fname, c.recv)
        return self.consts[k]

    def small(self, c, hi=70):
        r = self.rng
        x = r.random()
        if self.big and r.random() < (0.5 if self.big == 1 else 0.3):
            return r.choice(MID if self.big == 1 or r.random() < 0.6 else LONG) + r.choice((0, 0, 0, 1, -1, r.randrange(40)))
        hs = [h + d for h in self.cs(c) if 0 <= h <= 5000 for d in (-1, 0, 1) if h + d >= 0]
        if x < 0.25 and hs:
            h = r.choice(hs)
            if h <= 600 or r.random() < 0.1:
                return h
        if x < 0.75:
            return r.choice(NS)
        return r.randrange(hi)

    def anyint(self, c):
        r = self.rng
        x = r.random()
        hs = self.cs(c)
        if x < 0.3 and hs:
            return i64(r.choice(hs) + r.choice((-1, 0, 1)))
        if x < 0.6:
            return r.choice(BIG)
        if x < 0.8:
            return r.randrange(-300, 300)
        return i64(r.getrandbits(64))

    def elem(self, c, w, fl=False):
        r = self.rng
        x = r.random()
        m = (1 << 8 * w) - 1
        if x < 0.15:
            return r.choice([0, m, 1, m >> 1, (m >> 1) + 1, 0x80, 0xff, 0x0102030405060708 & m])
        if fl and x < 0.35:
            return r.choice([0x7f800001, 0x7fc00000, 0xffc00001, 0x7f800000, 0x80000000, 1] if w == 4 else
                            [0x7ff0000000000001, 0x7ff8000000000000, 0xfff8000000000001, 1 << 63, 1])
        hs = self.cs(c)
        if x < 0.45 and hs:
            return r.choice(hs) & m
        return r.getrandbits(8 * w)

    def run(self, c, calls=None, mode='', **kw):
        self.n += 1
        d = {'id': self.n, 'pkg': c.pkg, 'recv': c.recv, 'mode': mode, '_c': c}
        d.update(kw)
        if calls is not None:
            d['calls'] = calls
        return d

    def width(self, c):
        """bytes per counted element, from the contract's group and name"""
        if 'typed' in c.groups:
            m = re.search(r'(16|32|64)', c.name)
            return int(m.group(1)) // 8
        return 1

    def state(self, L, spare, lead=None):
        r = self.rng
        lead = r.choice([16, 17, 24]) if lead is None else lead
        n = lead + L + spare + 16
        arena = bytes(r.getrandbits(8) for _ in range(n)) if r.random() < 0.85 else bytes([r.choice([0, 255, 0x5a])]) * n
        return {'arena': arena.hex(), 'buf': [lead, L, L + spare]}

    def case(self, c, kind=None):
        return self.farcase(c, kind) if self.far else self.nearcase(c, kind)

    def nearcase(self, c, kind):
        """one run of one call of c: kind 'fit', 'edge' or 'any'"""
        r = self.rng
        kind = kind or r.choices(['fit', 'edge', 'any'], [6, 3, 1])[0]
        w = self.width(c)
        nx = 'next' in c.groups
        bits = c.groups[0] in ('bit1', 'bits')
        unit_n = self.small(c)
        if c.groups[0] == 'bit1':
            unit_n = 1
        if c.fname in ('WriteByte', 'ReadByte', 'WriteByteNext', 'ReadByteNext'):
            unit_n = 1
        need = (unit_n + 7) // 8 if bits else w * unit_n
        extra = r.choice([0, 0, 0, 1, 2, 3, 7, 8, 9, 20])
        L = need + extra if kind != 'any' else r.randrange(0, 40)
        if r.random() < 0.05:
            L = 0
        spare = r.choice([0, 0, 1, 3, 8, 8 * w, 40])
        d = self.state(L, spare)
        total = 8 * L if bits else L
        take = unit_n if bits else need
        room = total - take
        if kind == 'fit' and room >= 0:
            pos = r.choice([0, room, r.randrange(0, room + 1), min(room, self.small(c))])
        elif kind == 'edge':
            pos = r.choice([room + 1, room + r.randrange(1, 20), total, total - 1, total + 1, -1, -r.randrange(1, 70),
                            self.anyint(c), room, 0])
        else:
            pos = self.anyint(c) if r.random() < 0.5 else r.randrange(-4, total + 5)
        n = unit_n
        if kind != 'fit' and r.random() < 0.35:
            n = r.choice([self.anyint(c), -1, 0, I64 // w, I64 // w + 1, (1 << 64) // w >> 1, (1 << 62), ((1 << 63) - pos) // w if pos >= 0 else 1,
                          r.randrange(0, 100)])
            n = i64(n)
            if c.groups[0] == 'bits' and n > 4096 and (c.mini or 0 <= pos <= total):
                pass
        d['off'] = self.cursor(c, L)
        d['boff'] = self.cursor(c, 8 * L)
        if nx:
            d['boff' if bits else 'off'] = i64(pos)
        args = []
        for p in c.params:
            args.append(self.arg(c, p, d, i64(pos), n, unit_n, L, w, kind))
        return self.run(c, [{'fn': c.fname, 'args': args}], **d)

    def farcase(self, c, kind):
        """a case far inside a very large buffer"""
        run = self.nearcase(c, kind or self.rng.choices(['fit', 'edge'], [5, 1])[0])
        bits = c.groups[0] in ('bit1', 'bits')
        far = self.rng.choice([1 << 28, 1 << 29] if bits else [1 << 31, 1 << 28, 1 << 32]) - self.rng.choice([0, 0, 8, 16])
        s, n, cp = run['buf']
        run['far'], run['buf'] = far, [0, far + s + n, far + s + cp]
        d = far + s
        run['off'], run['boff'] = i64(run['off'] + d), i64(run['boff'] + 8 * d)
        for p, a in zip(c.params, run['calls'][0]['args']):
            if p.name == 'off':
                a['v'] = i64(a['v'] + (8 * d if bits else d))
            elif a['k'] == 'as':
                a['p'] = [a['p'][0] + far] + a['p'][1:]
        return run

    def anyargs(self, c):
        """one call with arguments that need not make sense"""
        r = self.rng
        run = self.case(c, r.choices(['fit', 'edge', 'any'], [2, 4, 4])[0])
        L = run['buf'][1]
        for p, a in zip(c.params, run['calls'][0]['args']):
            x = r.random()
            if p.name == 'n' and x < 0.5:
                a['v'] = i64(r.choice([-1, -2, -7, -8, -64, -I64, -I64 + 1, -r.randrange(1, 100), self.anyint(c)]))
                if a['v'] > 1 << 20 and c.mini and 'bits' not in c.groups:
                    a['v'] = r.randrange(0, 200)
            elif p.name == 'size' and x < 0.5:
                a['v'] = r.choice([1, 2, 4, 8, 0, 3, -1, 16, self.anyint(c)])
            elif p.type == 'interface':
                if x < 0.5:
                    t = r.choice(['uint8', 'uint16', 'uint32', 'uint64', 'nil', 'str', 'int16'])
                    a.clear()
                    a.update({'k': t} if t in ('nil', 'str') else
                             {'k': 's', 't': t, 'v': [r.getrandbits(8) for _ in range(r.randrange(0, 6))]})
            elif p.given and p.given[0] == 'dyn' and x < 0.6:
                w = r.choice(['nil', 'PANIC', 'OWN', 'LE', 'BE'])
                a.clear()
                a.update({'k': 'nil'} if w == 'nil' else {'k': 'bo', 'v': w})
            elif p.name == 'out' and a['k'] == 's' and x < 0.5:
                a['v'] = a['v'][:r.randrange(0, len(a['v']) + 1)]
        run['_total'] = True
        return run

    def cursor(self, c, total):
        r = self.rng
        x = r.random()
        if x < 0.5:
            return r.randrange(0, total + 1)
        if x < 0.75:
            return r.choice([0, total, total - 1, total + 1, -1, 1])
        return self.anyint(c)

    def arg(self, c, p, d, pos, n, unit_n, L, w, kind):
        r = self.rng
        if p.given and p.given[0] == 'int':
            return {'k': 'i', 'v': p.given[1]}
        if p.given and p.given[0] == 'dyn' and p.type != 'interface':
            return {'k': 'bo', 'v': 'LE' if 'little' in p.given[1] else 'BE'}
        t = p.type
        if p.name == 'out':
            if c.ret and c.ret[0] == 'fresh':
                m = (unit_n if n < 0 or n > 5000 else n) + r.choice([0, 0, 1, 3])
                return {'k': 's', 't': c.ret[1], 'v': [self.elem(c, SIZES[c.ret[1]]) for _ in range(m)]}
            if c.ret and c.ret[0] == 'scalar':
                return {'k': 'i', 'v': r.choice([0, 1, 0x5a])}
            if c.ret and c.ret[0] == 'bits64':
                return {'k': 'i', 'v': r.choice([0, 1, r.getrandbits(64)])}
            return {'k': 'nil'}
        if p.variadic:
            if r.random() < 0.5:
                return {'k': 's', 't': 'int64', 'v': []}
            v = [self.cursor(c, L) & ((1 << 64) - 1)]
            if r.random() < 0.1:
                v.append(self.cursor(c, L) & ((1 << 64) - 1))
            return {'k': 's', 't': 'int64', 'v': v}
        if t == 'bool':
            return {'k': 'b', 'v': r.random() < 0.5}
        if p.name == 'off':
            if c.groups[0] == 'seek':
                return {'k': 'i', 'v': self.anyint(c) if r.random() < 0.5 else r.randrange(-40, 40)}
            return {'k': 'i', 'v': pos}
        if p.name == 'n':
            if c.groups[0] == 'grow':
                x = r.random()
                v = self.small(c) if x < 0.7 else -r.randrange(1, 40) if x < 0.85 else r.choice([-I64, -1, 1000, 4096, I64 - 1, 1 << 62])
                return {'k': 'i', 'v': v}
            if c.groups[0] == 'trunc':
                x = r.random()
                v = r.randrange(0, L + 1) if x < 0.7 else r.choice([L, L + 1, L + 8, 0, -1, -L, d['buf'][2], self.anyint(c)])
                return {'k': 'i', 'v': i64(v)}
            return {'k': 'i', 'v': n}
        if p.name == 'size':
            return {'k': 'i', 'v': r.choice([0, 3, 5, 6, 7, 9, 16, -1, -8, 255, 1 << 40])}
        if p.name == 'data':
            if t == 'interface':
                t = p.given[1]
            if t == '[]uint8':
                a = d['arena']
                if r.random() < 0.45 and L > 0 and c.groups[0] == 'raw':
                    al = len(a) // 2
                    if r.random() < 0.8:
                        s = max(0, min(al - unit_n, d['buf'][0] + pos + r.randrange(-9, 10))) if abs(pos) < 10000 else 4
                    else:
                        s = r.randrange(0, al + 1)
                    ln = max(0, min(unit_n, al - s))
                    return {'k': 'as', 'p': [s, ln, min(ln + r.choice([0, 0, 4]), al - s)]}
                return {'k': 's', 't': 'uint8', 'v': [self.elem(c, 1) for _ in range(unit_n)]}
            if t.startswith('[]'):
                return {'k': 's', 't': t[2:], 'v': [self.elem(c, SIZES[t[2:]], t.startswith('[]float')) for _ in range(unit_n)]}
            if t == 'uint8':
                if c.groups[0] == 'bit1':
                    return {'k': 'i', 'v': r.choice([0, 1, 0, 1, 0, 1, 2, 3, 255, 254, 128])}
                return {'k': 'i', 'v': self.elem(c, 1)}
            return {'k': 'i', 'v': self.elem(c, 8)}
        raise SpecError('no generator for parameter %s %s' % (p.name, t))

    def fits(self, c, run):
        """is the single call of the run inside the contract's precondition and
        small enough to execute"""
        st = state_of(run)
        a = run['calls'][0]['args']
        env = ConcEnv({'off': st['off'], 'boff': st['boff'], 'cap': st['len'], 'bcap': 8 * st['len']},
                      st['bytes'], conc_params(c, a, arena_of(run)))
        env.storage = run['buf'][2]
        for q in c.requires:
            if not env.ev(q):
                return False
        if c.mini and c.ret and c.ret[0] == 'fresh' and env.ev(c.ret[2]) > len(env.params['out'][1]):
            return False
        if c.grow is not None and 1 << 20 < env.ev(c.grow) < 1 << 48:
            return False
        return True

    # ---- sequences
    def step(self, c, st):
        """a call of c that makes sense in state st (bytes, off, boff)"""
        r = self.rng
        L = len(st['b'])
        w = self.width(c)
        g = c.groups[0]
        bits = g in ('bit1', 'bits')
        total = 8 * L if bits else L
        at = st['boff' if bits else 'off'] if 'next' in c.groups else None
        if at is not None:
            room = max(0, total - at) if 0 <= at <= total else 0
        else:
            room = total
        u = min(self.small(c), room if bits else room // w)
        if g == 'bit1' or c.fname.startswith(('WriteByte', 'ReadByte')) and not c.fname.startswith(('WriteBytes', 'ReadBytes')):
            u = 1
        take = u if bits else u * w
        pos = at if at is not None else r.choice([0, max(0, total - take), r.randrange(0, max(1, total - take + 1))])
        if r.random() < 0.06:
            pos = r.choice([-1, total, total + 1, self.anyint(c)])
        n = u if r.random() > 0.05 else r.choice([-1, u + 1, self.anyint(c)])
        d = {'arena': '', 'buf': [0, L, L], 'off': st['off'], 'boff': st['boff']}
        args = [self.arg(c, p, d, i64(pos), i64(n), u, L, w, 'seq') for p in c.params]
        for a in args:
            if a['k'] == 'as':
                a.clear()
                a.update({'k': 's', 't': 'uint8', 'v': [self.elem(c, 1) for _ in range(u)]})
        return {'fn': c.fname, 'args': args}

    def seek(self, pkg, recv, fname, pos):
        return {'fn': fname, 'args': [{'k': 'i', 'v': pos}, {'k': 'b', 'v': False}]}

    def seq(self, pool, focus=None, length=None):
        """one run of several calls on one buffer; pool: contracts of one type"""
        r = self.rng
        c0 = focus or r.choice(pool)
        L = r.choice([0, 1, 2, 4, 8, 8, 12, 16, 24, 33, 64, 100])
        d = self.state(L, r.choice([0, 0, 3, 16, 64]))
        raw = bytes.fromhex(d['arena'])
        s = d['buf'][0]
        st = {'b': list(raw[s:s + L]), 'off': r.choice([0, 0, L // 2]), 'boff': r.choice([0, 0, 4 * L]),
              'scap': d['buf'][2]}
        d['off'], d['boff'] = st['off'], st['boff']
        calls, tries = [], 0
        k = length or r.randrange(2, 9)
        sk = self.specs.names[c0.pkg]['Seek']
        while len(calls) < k and tries < 60:
            tries += 1
            last = len(calls) >= k - 1
            c = c0 if focus and (last or r.random() < 0.4) else r.choice(pool)
            if 'next' in c.groups and r.random() < 0.5 and not last:
                bits = c.groups[0] in ('bit1', 'bits')
                t = len(st['b']) * (8 if bits else 1)
                call = {'fn': 'SeekBit' if bits else sk,
                        'args': [{'k': 'i', 'v': r.randrange(0, t + 1)}, {'k': 'b', 'v': False}]}
                c = self.specs.contracts[(c0.pkg, c0.recv, call['fn'])]
            else:
                if c.noinvariant:
                    continue
                call = self.step(c, st)
            nx = simulate(c, call['args'], st)
            if nx == 'skip':
                continue
            calls.append(call)
            if nx is not None:
                st = nx
        return self.run(c0, calls, **d)

    def ctor(self, tag, fname):
        r = self.rng
        k = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7])
        ss, at = [], 8
        for _ in range(k):
            n = r.choice([0, 0, 1, 2, 3, 5, 8, 16, 33, 64, 200])
            sp = r.choice([0, 0, 1, 8, 64])
            if ss and r.random() < 0.15:
                ss.append(list(r.choice(ss)))
                continue
            ss.append([at, n, n + sp])
            at += n + (sp if r.random() < 0.5 else 0) + r.choice([0, 0, 5])
        tot = max([s + c for s, n, c in ss] + [at]) + 8
        self.n += 1
        return {'id': self.n, 'pkg': tag, 'ctor': fname, 'slices': ss,
                'arena': bytes(r.getrandbits(8) for _ in range(tot)).hex()}


def simulate(c, args, st):
    """the state after a call according to its contract; None when the call is
    rejected, 'skip' when it should not be made"""
    env = ConcEnv({'off': st['off'], 'boff': st['boff'], 'cap': len(st['b']), 'bcap': 8 * len(st['b'])},
                  st['b'], conc_params(c, args, b''))
    env.storage = st['scap']
    for q in c.requires:
        if not env.ev(q):
            return 'skip'
    if c.mini and c.ret and c.ret[0] == 'fresh' and env.ev(c.ret[2]) > len(env.params['out'][1]):
        return 'skip'
    if any(env.ev(x) for x in c.maypanics) or c.grow is not None and env.ev(c.grow) > 1 << 16:
        return 'skip'
    if any(env.ev(x) for e, x, al in c.panics):
        return None
    out = dict(st)
    b = st['b'].copy() if isinstance(st['b'], Sparse) else list(st['b'])
    for kind, var, elo, ehi, e in c.writes:
        lo, hi = env.ev(elo), env.ev(ehi)
        vals = [(y, env.at(**{var: y}).ev(e)) for y in range(lo, hi)]
        for y, v in vals:
            if kind == 'bytes':
                b[y] = v
            else:
                i, m = y // 8, 0x80 >> (y % 8)
                b[i] = (b[i] & ~m) | (m if v else 0)
    for n, e in c.sets:
        out[n] = env.ev(e)
    if c.grow is not None:
        b = b + [0] * env.ev(c.grow)
        out['scap'] = max(out['scap'], len(b))
    elif c.rebuf:
        b = b[env.ev(c.rebuf[0]):env.ev(c.rebuf[1])]
    out['b'] = b
    return out


def total_size(run):
    return (run.get('far') or 0) + len(run['arena']) // 2


def arena_of(run):
    a = bytes.fromhex(run['arena'])
    far = run.get('far')
    return Sparse(far + len(a), {far + i: v for i, v in enumerate(a) if v}) if far else a


def state_of(run):
    s, n, cp = run['buf']
    a = arena_of(run)
    return {'bytes': a[s:s + n], 'len': n, 'off': run.get('off') or 0, 'boff': run.get('boff') or 0}


def run_of_case(case, c, rid):
    """a run from an engine counterexample"""
    if 'slices' in case:
        d = {'id': rid, 'pkg': c.pkg, 'ctor': case['fn'], 'slices': case['slices'], 'arena': case['arena']}
        return d
    d = {'id': rid, 'pkg': c.pkg, 'recv': case['recv'], 'arena': case['arena'], 'buf': case['buf'], 'mode': '',
         'off': case['off'], 'boff': case['boff'], 'calls': [{'fn': case['fn'], 'args': case['args']}], '_c': c}
    if c.noinvariant:
        d['cap'], d['bcap'] = case['cap'], case['bcap']
    return d
