"""Loads the SSA dump of one package."""
import json, os, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
GOENV = dict(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')


def goenv():
    e = dict(os.environ)
    e.update(GOENV)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    return e


class Loop:
    __slots__ = ('header', 'body')

    def __init__(self, header, body):
        self.header, self.body = header, frozenset(body)


def rename(x, m):
    """the same dump with the registers of m renamed (in place)"""
    if isinstance(x, list):
        for y in x:
            rename(y, m)
    elif isinstance(x, dict):
        if x.get('k') == 'reg' and x.get('n') in m:
            x['n'] = m[x['n']]
        for y in x.values():
            rename(y, m)


def tail_calls(d):
    """turn calls of a function to itself that end it into jumps to its start"""
    bs = d.get('blocks')
    if not bs or d['freevars'] or d.get('recover', -1) >= 0 or len(d['params']) == 0:
        return
    ops = [i for b in bs for i in b['instrs']]
    if any(i['op'] in ('Defer', 'RunDefers', 'MakeClosure', 'Alloc') for i in ops):
        return

    def result_of(call, rest, ret):
        """ret returns exactly what the call gives"""
        n = len(d['results'])
        if n == 0:
            return not rest and not ret['r']
        if n == 1:
            return not rest and ret['r'][0].get('k') == 'reg' and ret['r'][0]['n'] == call['reg']
        names = {}
        for e in rest:
            if e['op'] != 'Extract' or e['x'].get('n') != call['reg']:
                return False
            names[e['reg']] = e['i']
        return all(r.get('k') == 'reg' and names.get(r['n']) == k for k, r in enumerate(ret['r']))

    tails = []
    for b in bs:
        ins = b['instrs']
        at = [k for k, i in enumerate(ins) if i['op'] == 'Call' and (i['call'].get('fn') or {}).get('k') == 'func' and i['call']['fn']['n'] == d['name']]
        if not at:
            continue
        k, last = at[-1], ins[-1]
        if len(ins[k]['call']['args']) != len(d['params']):
            continue
        if last['op'] == 'Return' and result_of(ins[k], ins[k + 1:-1], last):
            tails.append((b, k))
        elif last['op'] == 'Jump':
            r = bs[b['succs'][0]]
            phis, ret = r['instrs'][:-1], r['instrs'][-1]
            if ret['op'] != 'Return' or any(i['op'] != 'Phi' for i in phis):
                continue
            e = r['preds'].index(b['i'])
            at = {i['reg']: i['e'][e] for i in phis}
            if result_of(ins[k], ins[k + 1:-1], {'r': [at.get(x.get('n'), x) if x.get('k') == 'reg' else x for x in ret['r']]}):
                tails.append((b, k))
    if not tails:
        return
    calls = [b['instrs'][k]['call']['args'] for b, k in tails]
    new = {}
    for j, p in enumerate(d['params']):
        if any(not (c[j].get('k') == 'reg' and c[j]['n'] == p['n']) for c in calls):
            new[p['n']] = 'tail.' + p['n']
    first, h = bs[0], len(bs)
    for b in bs:
        rename(b['instrs'], new)
    phis = []
    for j, p in enumerate(d['params']):
        if p['n'] in new:
            phis.append({'op': 'Phi', 'reg': new[p['n']], 't': p['t'],
                         'comment': p['n'], 'e': [{'k': 'reg', 'n': p['n'], 't': p['t']}] + [c[j] for c in calls]})
    head = {'i': h, 'idom': 0, 'instrs': phis + first['instrs'], 'succs': first['succs'], 'preds': [0] + [h if b is first else b['i'] for b, _ in tails]}
    for b in bs[1:]:
        if b['idom'] == 0:
            b['idom'] = h
        b['preds'] = [h if p == 0 else p for p in b['preds']]
    bs[0] = {'i': 0, 'idom': -1, 'instrs': [{'op': 'Jump'}], 'succs': [h], 'preds': []}
    bs.append(head)
    for b, k in tails:
        if b is first:
            b, k = head, k + len(phis)
        for t in b['succs']:
            e = bs[t]['preds'].index(b['i'])
            bs[t]['preds'].pop(e)
            for i in bs[t]['instrs']:
                if i['op'] == 'Phi':
                    i['e'].pop(e)
        b['instrs'] = b['instrs'][:k] + [{'op': 'Jump'}]
        b['succs'] = [h]


class Func:
    def __init__(self, d):
        tail_calls(d)
        self.name = d['name']
        self.short = d['short']
        self.params = [(p['n'], p['t']) for p in d['params']]
        self.freevars = [(p['n'], p['t']) for p in d['freevars']]
        self.results = d['results']
        self.blocks = d.get('blocks')
        self.recv = d.get('recv')
        self.file = d.get('file')
        self.line = d.get('line')
        self.target = d.get('target', False)
        self.variadic = d.get('variadic', False)
        self.recover = d.get('recover', -1) if d.get('recover', -1) >= 0 else None
        self._loops = None

    @property
    def loops(self):
        """natural loops by header; None when the control flow is irreducible"""
        if self._loops is not None:
            return self._loops
        bs = self.blocks
        idom = [b['idom'] for b in bs]

        def dom(a, b):
            while b != -1:
                if a == b:
                    return True
                b = idom[b]
            return False
        loops = {}
        # reducibility: every retreating edge of a DFS must be a back edge
        state = {}
        irreducible = False
        stack = [(0, iter(bs[0]['succs']))]
        state[0] = 1
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if state.get(s, 0) == 0:
                    state[s] = 1
                    stack.append((s, iter(bs[s]['succs'])))
                    adv = True
                    break
                if state[s] == 1 and not dom(s, n):
                    irreducible = True
            if not adv:
                state[n] = 2
                stack.pop()
        for b in bs:
            if state.get(b['i']) is None:
                continue
            for s in b['succs']:
                if dom(s, b['i']):
                    body = loops.setdefault(s, {s})
                    work = [b['i']]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in bs[x]['preds'] if state.get(p))
        self.irreducible = irreducible
        self._loops = {h: Loop(h, b) for h, b in loops.items()}
        return self._loops


class Package:
    def __init__(self, d):
        self.path = d['pkg']
        self.pkgname = d['pkgname']
        self.types = d['types']
        self.funcs = {f['name']: Func(f) for f in d['functions']}
        self.globals = {g['n']: g for g in d['globals']}
        self.methods = d['methods']
        self.members = d['members']

    def ty(self, t):
        return self.types[t]

    def method(self, typ, name):
        for cand in ('(*%s.%s).%s' % (self.path, typ, name), '(%s.%s).%s' % (self.path, typ, name)):
            if cand in self.funcs:
                return self.funcs[cand]
        return None

    def func(self, name):
        return self.funcs.get(self.path + '.' + name)

    def exported(self):
        """every exported function or method declared in the package"""
        out = []
        for f in self.funcs.values():
            if not f.target or not f.short[:1].isupper():
                continue
            if f.recv is None and f.name == self.path + '.' + f.short:
                out.append((None, f.short, f))
            elif f.recv:
                r = f.recv.lstrip('*').rsplit('.', 1)[-1]
                if f.recv.lstrip('*').startswith(self.path + '.'):
                    out.append((r, f.short, f))
        return out


def build_dumper(workdir):
    out = os.path.join(workdir, 'ssadump')
    p = subprocess.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(VERIF, 'tool', 'ssadump'),
                       env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError('building ssadump failed:\n' + p.stderr)
    return out


def dump(dumper, pkgdir):
    p = subprocess.run([dumper, '-dir', pkgdir], env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError('ssadump %s failed:\n%s' % (pkgdir, p.stderr))
    return Package(json.loads(p.stdout))
