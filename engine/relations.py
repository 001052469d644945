"""Properties that relate two calls or two types: generation and judging of the
concrete runs.  A group is a list of runs and a judge over their results."""
import concrete
from concrete import simulate
from spec import ConcEnv


class Group:
    def __init__(self, rel, c, runs):
        self.rel, self.c, self.runs = rel, c, runs


def partner(specs, cw):
    k = (cw.pkg, cw.recv, cw.name.replace('Write', 'Read', 1))
    return specs.contracts.get(k)


def roundtrip_pairs(specs):
    out = []
    for k, c in specs.contracts.items():
        if 'typed' in c.groups and 'write' in c.groups:
            r = partner(specs, c)
            if r is not None:
                out.append((c, r))
    return out


def next_pairs(specs):
    out = []
    for k, c in specs.contracts.items():
        if c.next_of:
            b = specs.contracts.get((c.pkg, c.recv, c.next_of))
            if b is not None:
                out.append((c, b))
    return out


def mini_pairs(specs):
    out = []
    for k, c in specs.contracts.items():
        if c.recv == 'Buffer' and not c.noinvariant:
            m = specs.contracts.get((c.pkg, 'MiniBuffer', c.name))
            if m is not None:
                out.append((c, m))
    return out


# ---------------------------------------------------------------- generation
def gen_roundtrip(g, cw, cr):
    r = g.rng
    run = g.case(cw, 'fit')
    if not g.fits(cw, run) or 'calls' not in run:
        return None
    st = concrete.state_of(run)
    a = run['calls'][0]['args']
    if simulate(cw, a, {'b': st['bytes'], 'off': st['off'], 'boff': st['boff'], 'scap': run['buf'][2]}) in (None, 'skip'):
        return None
    byname = {p.name: x for p, x in zip(cw.params, a)}
    n = len(byname['data']['v'])
    byname['n'] = {'k': 'i', 'v': n}
    if cr.mini:
        byname['out'] = {'k': 's', 't': cr.ret[1], 'v': [r.getrandbits(16) for _ in range(n + r.choice([0, 0, 2]))]}
    calls = list(run['calls'])
    if cw.next_of:
        calls.append(g.seek(cw.pkg, cw.recv, g.specs.names[cw.pkg]['Seek'], st['off']))
    calls.append({'fn': cr.fname, 'args': [byname[p.name] for p in cr.params]})
    run['calls'] = calls
    return Group('roundtrip', cw, [run])


def gen_next(g, cn, cb):
    run = g.case(cn)
    if not g.fits(cn, run):
        return None
    st = concrete.state_of(run)
    a = run['calls'][0]['args']
    bits = cn.groups[0] in ('bit1', 'bits')
    pos = {'k': 'i', 'v': st['boff' if bits else 'off']}
    k = 1 if cn.out else 0
    twin = dict(run)
    g.n += 1
    twin['id'] = g.n
    twin['_c'] = cb
    twin['calls'] = [{'fn': cb.fname, 'args': a[:k] + [pos] + a[k:]}]
    return Group('next', cn, [run, twin])


def gen_mini(g, c, m):
    run = g.case(m, 'fit')
    if not g.fits(m, run):
        return None
    a = run['calls'][0]['args']
    st = concrete.state_of(run)
    k = 1 if m.out else 0
    ab = a[k:]
    nx = simulate(c, ab, {'b': st['bytes'], 'off': st['off'], 'boff': st['boff'], 'scap': run['buf'][2]})
    if nx is None or nx == 'skip':
        return None
    twin = dict(run)
    g.n += 1
    twin['id'] = g.n
    twin['recv'] = 'Buffer'
    twin['_c'] = c
    twin['calls'] = [{'fn': c.fname, 'args': ab}]
    return Group('mini', m, [run, twin])


# ---------------------------------------------------------------- judging
def ended(x):
    if x is None or x.get('err') or x.get('timeout') and x.get('stage') != 'call':
        return 'unknown'
    if x.get('timeout'):
        return 'does not return'
    if 'crash' in x:
        return 'kills the process'
    if any(c.get('stuck') for c in x['calls']):
        return 'does not return'
    return None


def values(v):
    if v is None:
        return None
    if v.get('v') is None:
        return []
    return [int(e) for e in v['v']] if isinstance(v['v'], list) else v['v']


def judge(grp, results):
    """None when the relation holds, else text"""
    xs = [results.get(r['id']) for r in grp.runs]
    es = [ended(x) for x in xs]
    if 'unknown' in es:
        return None
    if grp.rel == 'roundtrip':
        if es[0]:
            return 'a write followed by a read %s' % es[0]
        run, x = grp.runs[0], xs[0]
        for call, c in zip(run['calls'], x['calls']):
            if c['panic']:
                return '%s panics on a range that fits: %s' % (call['fn'], '/'.join(c['panic']['names'] or []) or c['panic']['s'])
        data = next(values(a) for a in run['calls'][0]['args'] if a['k'] == 's' and a is not None and
                    a is run['calls'][0]['args'][[p.name for p in grp.c.params].index('data')])
        last = x['calls'][-1]
        got = values(last['ret'] if last.get('ret') else last['out'])
        if got is None or got[:len(data)] != data or (last.get('ret') and len(got) != len(data)):
            return 'wrote %s and read back %s' % (brief(data), brief(got))
        return None
    if any(es):
        if es[0] == es[1]:
            return None
        return 'one call %s, the other does not' % (es[0] or es[1])
    (r0, r1), (c0, c1) = grp.runs, (xs[0]['calls'][0], xs[1]['calls'][0])
    pan = lambda c: None if not c['panic'] else ('/'.join(c['panic']['names'] or []) or c['panic']['k'])
    f0 = '%s.%s' % (r0['recv'], r0['calls'][0]['fn'])
    f1 = '%s.%s' % (r1['recv'], r1['calls'][0]['fn'])
    # the two runs must have started alike
    for k in ('bytes', 'off', 'boff', 'cap', 'bcap', 'arena', 'nz'):
        if xs[0]['pre'].get(k) != xs[1]['pre'].get(k):
            return None
    if grp.rel == 'mini' and c1['panic']:
        return None                      # the checked buffer must accept
    if (c0['panic'] is None) != (c1['panic'] is None):
        return '%s panics (%s), %s does not' % ((f0, pan(c0), f1) if c0['panic'] else (f1, pan(c1), f0))
    if c0['panic']:
        if grp.rel == 'next' and bool(c0['panic']['names']) != bool(c1['panic']['names']):
            return '%s panics with %s, %s with %s' % (f0, pan(c0), f1, pan(c1))
        return None
    keys = ['bytes', 'arena', 'nz', 'cap', 'bcap', 'len']
    if grp.rel == 'mini':
        keys += ['off', 'boff']
    else:
        keys.append('off' if grp.c.groups[0] in ('bit1', 'bits') else 'boff')
    for k in keys:
        x, y = c0['post'].get(k), c1['post'].get(k)
        if x != y:
            if k == 'nz':
                if x is None or y is None:
                    return None
                k, x, y = 'memory', sorted(set(map(tuple, x)) - set(map(tuple, y))), sorted(set(map(tuple, y)) - set(map(tuple, x)))
            return '%s leaves %s = %s, %s leaves %s' % (f0, k, brief(x), f1, brief(y))
    c = grp.c
    if c.ret and c.ret[0] not in ('nothing',):
        v0 = c0['out'] if c.mini else c0['ret']
        if grp.rel == 'mini':
            v1 = c1['ret']
        else:
            v1 = c1['out'] if c.mini else c1['ret']
        a, b = values(v0), values(v1)
        if grp.rel == 'mini' and c.ret[0] in ('fresh', 'ifresh') and isinstance(a, list) and isinstance(b, list):
            a = a[:len(b)]
        if a != b or (v0 or {}).get('dyn') != (v1 or {}).get('dyn') and grp.rel == 'next':
            return '%s gives %s, %s gives %s' % (f0, brief(a), f1, brief(b))
        if c.ret[0] in ('window', 'iwindow') and v0 and v1 and v0.get('len'):
            if v0.get('ptr', 0) - xs[0]['pre']['ptr'] != v1.get('ptr', 0) - xs[1]['pre']['ptr']:
                return '%s and %s return different windows' % (f0, f1)
    return None


def brief(v):
    s = str(v)
    return s if len(s) <= 160 else s[:160] + '...'
