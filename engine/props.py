"""Which obligations decide which property."""

FIELDS = ('field:off', 'field:boff')
PFRAME = ('panicframe', 'panicframe:off', 'panicframe:boff')
# a property whose operations must return fails when they do not
ENDS = ('nopanic', 'term', 'crash')
ALL = ('content', 'frame', 'hdr', 'field:off', 'field:boff', 'wf', 'result', 'fresh', 'alias', 'dest', 'panic', 'nopanic',
       'runtime', 'panicframe', 'panicframe:off', 'panicframe:boff', 'term', 'crash')
RELATED = ('content', 'frame', 'hdr', 'result', 'alias', 'fresh', 'dest', 'nopanic', 'wf')


def g(c, *names):
    return all(n in c.groups for n in names)


def c01(c):
    return ('content', 'frame', 'hdr') + ENDS if g(c, 'typed', 'write') else ()


def c02(c):
    return ('result', 'fresh', 'dest') + ENDS if g(c, 'typed', 'read') else ()


def c04(c):
    if g(c, 'raw', 'write'):
        return ('content', 'frame', 'hdr') + ENDS
    if g(c, 'raw', 'read') or c.name == 'Bytes':
        return ('result', 'alias') + ENDS
    return ()


def c05(c):
    return ('panic', 'nopanic', 'runtime', 'crash') if c.recv == 'Buffer' and c.panics else ()


def c06(c):
    return PFRAME if c.recv == 'Buffer' and c.panics else ()


def c07(c):
    if g(c, 'seek'):
        return FIELDS + ENDS
    if g(c, 'accessor') and c.fname in ('Offset', 'ByteOffset', 'BitOffset'):
        return FIELDS + ('result',) + ENDS
    out = list(FIELDS) + list(PFRAME[1:])
    if c.groups[0] in ('align', 'reset'):
        for f, _ in c.sets:
            out.remove('field:' + f)
    return tuple(out)


def c08(c):
    if not g(c, 'bit1'):
        return ()
    return ('content', 'frame', 'hdr') + ENDS if g(c, 'write') else ('result',) + ENDS


def c09(c):
    if not g(c, 'bits'):
        return ()
    return ('content', 'frame', 'hdr') + ENDS if g(c, 'write') else ('result',) + ENDS


def c10(c):
    return ALL if g(c, 'allbits') else ()


def c11(c):
    out = ['wf']
    if c.groups[0] in ('after', 'align', 'refresh'):
        out += ['result', 'frame', 'hdr'] + list(FIELDS) + list(ENDS)
    if g(c, 'accessor') and c.fname != 'Bytes':
        out += ['result'] + list(ENDS)
    return tuple(out)


def c12(c):
    return ALL if g(c, 'grow') else ()


def c13(c):
    return ALL if c.groups[0] in ('trunc', 'reset') else ()


def c16(c):
    return ('lock', 'crash') if c.recv == 'Buffer' and c.pkg in ('v1', 'v2') else ()


def c22(c):
    ok = c16(c) and 'next' not in c.groups and c.groups[0] in ('bit1', 'allbits', 'seek', 'align', 'raw', 'typed', 'grow', 'reset')
    return ('atomic',) if ok else ()


def c21(c):
    if not g(c, 'read'):
        return ()
    out = ['frame', 'hdr', 'wf'] + list(PFRAME)
    return tuple(out + (list(FIELDS) if 'next' not in c.groups else []))


def c20(c):
    return ('term',)


# kinds judged in the zero-length behaviours of C20
ZERO = ('content', 'frame', 'hdr', 'field:off', 'field:boff', 'wf', 'result', 'alias', 'fresh', 'dest', 'nopanic', 'crash', 'term')

COVERS = {'C01': c01, 'C02': c02, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
          'C11': c11, 'C12': c12, 'C13': c13, 'C16': c16, 'C20': c20, 'C21': c21, 'C22': c22}

CTOR = {'C11': ('wf',), 'C14': ALL, 'C20': ('term',), 'C16': ('lock',), 'C07': FIELDS}


# kinds that are decided for arbitrary arguments, inside the contract or not
ANYARG = ('lock', 'crash', 'term', 'wf', 'frame', 'hdr', 'field:off', 'field:boff') + PFRAME


def anyarg(pid, c):
    """the kinds to decide for c whatever its arguments are: those that the
    contract leaves to a precondition"""
    if pid not in ('C06', 'C07', 'C11', 'C16', 'C20', 'C21') or c.noinvariant:
        return ()
    if not (c.requires or c.mini and (c.panics or c.ret and c.ret[0] == 'fresh') or '@' in c.name):
        return ()
    return tuple(k for k in COVERS[pid](c) if k in ANYARG)


def zero_case(c):
    """the extra precondition of the zero-length behaviour of c, or None"""
    g0 = c.groups[0]
    if g0 in ('typed', 'raw', 'bits'):
        names = [p.name for p in c.params]
        if 'n' in names:
            return 'n == 0'
        if 'data' in names and g0 != 'bits' and next(p for p in c.params if p.name == 'data').type != 'uint8':
            return 'len(data) == 0'
    if g0 == 'allbits':
        return 'len(b) == 0'
    return None


def zero_run(c, run):
    """turns a run of c into its zero-length behaviour"""
    g0 = c.groups[0]
    for p, a in zip(c.params, run['calls'][0]['args']):
        if p.name == 'n':
            a['v'] = 0
        if p.name == 'data' and a['k'] == 's':
            a['v'] = []
        if p.name == 'data' and a['k'] == 'as':
            a['p'] = [a['p'][0], 0, a['p'][2]]
    if g0 == 'allbits':
        run['buf'][1] = 0
        run['off'] = run['boff'] = 0
    return run
