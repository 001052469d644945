"""Contract files: parsing, and evaluation of contract expressions both over
symbolic states (to build obligations) and over concrete ones (to judge a run of
the real code)."""
import ast, copy, os, re
import z3
from vals import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIZES = {'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8,
         'float32': 4, 'float64': 8}


class SpecError(Exception):
    pass


class Param:
    def __init__(self, name, type, given=None, variadic=False):
        self.name, self.type, self.given, self.variadic = name, type, given, variadic


class Contract:
    def __init__(self):
        self.groups = []
        self.requires = []      # ast
        self.panics = []        # (error or 'any', ast, always?)  always: kept for MiniBuffer too
        self.maypanics = []     # ast
        self.writes = []        # (kind 'bytes'|'bits', var, lo, hi, expr)
        self.sets = []          # (field, ast)
        self.ret = None         # (kind, ...)
        self.rebuf = None       # (lo, hi)
        self.grow = None        # ast
        self.onpanic = None     # (lo, hi) bits
        self.noinvariant = False
        self.only = None
        self.next_of = None
        self.out = None         # name of the out parameter (MiniBuffer)
        self.mini = False
        self.hasout = False     # takes an out pointer although it stores nothing

    @property
    def id(self):
        return '%s.%s.%s' % (self.pkg, self.recv, self.name)

    @property
    def fname(self):
        return self.name.split('@')[0]


def expr(s):
    s = s.strip()
    s = re.sub(r'(?<![<>=!])=(?!=)', '==', s)
    return ast.parse(s, mode='eval').body


def split_range(s):
    lo, hi = s.split(' .. ')
    return expr(lo), expr(hi)


def parse_params(s):
    out = []
    s = s.strip()
    if not s:
        return out
    for p in s.split(','):
        n, t = p.strip().split(' ', 1)
        t = t.strip()
        var = t.startswith('...')
        given = None
        if var:
            t = '[]' + t[3:]
        elif t.startswith('interface{'):
            given, t = ('dyn', t[len('interface{'):-1]), 'interface'
        elif '{' in t:
            t, g = t[:-1].split('{')
            given = ('int', int(g)) if g.lstrip('-').isdigit() else ('dyn', g)
        out.append(Param(n, t, given, var))
    return out


class Sub(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return copy.deepcopy(self.m[n.id]) if n.id in self.m else n


class SpecFile:
    def __init__(self, path=None):
        self.contracts = {}      # (pkg, recv, name) -> Contract
        self.ctors = {}          # (pkg, fname) -> type
        self.errors = {'v1': [], 'v2': [], 'v3': []}
        self.errortext = {'v1': {}, 'v2': {}, 'v3': {}}
        self.names = {'v1': {}, 'v2': {}, 'v3': {}}
        self.invariant = None
        self.parse(open(path or os.path.join(VERIF, 'contracts', 'crunch.spec')).read())

    def parse(self, text):
        lines = []
        for ln in text.split('\n'):
            ln = re.sub(r'(^|\s)#.*$', '', ln).rstrip()
            if ln.strip():
                lines.append(ln)
        # names first
        for ln in lines:
            m = re.match(r'names\[([\w,]+)\] (.*)', ln)
            if m:
                for p in m.group(1).split(','):
                    for kv in m.group(2).split():
                        k, v = kv.split('=')
                        self.names[p][k] = v
        self.block(lines, [{}], None)
        self.link()

    def block(self, lines, insts, pkgs):
        i = 0
        fams = []
        while i < len(lines):
            ln = lines[i]
            if re.match(r'family', ln):
                fams.append(ln)
                i += 1
                continue
            if fams:
                body = []
                while lines[i] != 'endfamily':
                    if re.match(r'family', lines[i]):
                        fams.append(lines[i])
                    else:
                        body.append(lines[i])
                    i += 1
                i += 1
                self.family(fams, body)
                fams = []
                continue
            j = i + 1
            while j < len(lines) and lines[j].startswith('  '):
                j += 1
            self.item(lines[i:j], None)
            i = j

    def family(self, fams, body):
        groups = []   # list of alternatives lists
        byvars = {}
        for f in fams:
            m = re.match(r'family(?:\[([\w,]+)\])? ([\w,]+) = (.*)', f)
            pk, vs, alts = m.groups()
            for a in alts.split():
                d = dict(zip(vs.split(','), a.split(',')))
                d['_pk'] = pk.split(',') if pk else None
                byvars.setdefault(vs, []).append(d)
        insts = [{'_pk': None}]
        for vs, alts in byvars.items():
            n = []
            for x in insts:
                for a in alts:
                    y = dict(x)
                    y.update({k: v for k, v in a.items() if k != '_pk'})
                    pk = a['_pk']
                    y['_pk'] = pk if x['_pk'] is None else x['_pk'] if pk is None else [p for p in pk if p in x['_pk']]
                    n.append(y)
            insts = n
        for d in insts:
            txt = '\n'.join(body)
            for k, v in d.items():
                if k != '_pk':
                    txt = txt.replace('<%s>' % k, v)
            lines = txt.split('\n')
            i = 0
            while i < len(lines):
                j = i + 1
                while j < len(lines) and lines[j].startswith('  '):
                    j += 1
                self.item(lines[i:j], d['_pk'])
                i = j

    def item(self, ls, pkgs):
        h = ls[0]
        if h.startswith('invariant '):
            self.invariant = expr(h[len('invariant '):])
            return
        if h.startswith('names'):
            return
        m = re.match(r'errors(?:\[([\w,]+)\])? (.*)', h)
        if m:
            for p in (m.group(1) or 'v1,v2,v3').split(','):
                self.errors[p] += m.group(2).split()
            return
        m = re.match(r'errortext(?:\[([\w,]+)\])? (\w+) (.*)', h)
        if m:
            for p in (m.group(1) or 'v1,v2,v3').split(','):
                self.errortext[p][m.group(2)] = 'crunch: ' + m.group(3)
            return
        m = re.match(r'constructor (\w+)\((.*)\)', h)
        if m:
            for p in ('v1', 'v2', 'v3'):
                self.ctors[(p, m.group(1))] = m.group(1)[3:]
            return
        m = re.match(r'(contract|next)(?:\[([\w,]+)\])? ([\w{}@]+)\(([^)]*)\)(?: = ([\w@{}]+)\((.*)\) advance (\w+) (.*))?$', h)
        if not m:
            raise SpecError('cannot parse: ' + h)
        kind, pk, name, params, base, bargs, field, adv = m.groups()
        ps = pk.split(',') if pk else (pkgs or ['v1', 'v2', 'v3'])
        for p in ps:
            nm = re.sub(r'\{(\w+)\}', lambda k: self.names[p][k.group(1)], name)
            if kind == 'next':
                c = ('next', p, nm, parse_params(params), base, bargs, field, adv)
                self.contracts[(p, 'Buffer', nm)] = c
                continue
            c = Contract()
            c.pkg, c.recv, c.name = p, 'Buffer', nm
            c.params = parse_params(params)
            for ln in ls[1:]:
                self.clause(c, ln.strip())
            self.contracts[(p, 'Buffer', nm)] = c

    def clause(self, c, s):
        w, _, rest = s.partition(' ')
        rest = rest.strip()
        if w == 'group':
            c.groups = rest.split()
        elif w == 'requires':
            c.requires.append(expr(rest))
        elif w in ('panics', 'rejects'):
            e, cond = rest.split(' when ')
            c.panics.append((e.strip(), expr(cond), w == 'rejects'))
        elif w == 'maypanic':
            c.maypanics.append(expr(rest.split(' when ')[1]))
        elif w in ('write', 'writebits'):
            m = re.match(r'(\w+) in (.*?) := (.*)', rest)
            lo, hi = split_range(m.group(2))
            c.writes.append(('bytes' if w == 'write' else 'bits', m.group(1), lo, hi, expr(m.group(3))))
        elif w == 'set':
            f, e = rest.split(' := ')
            c.sets.append((f.strip(), expr(e)))
        elif w == 'returns':
            if rest.startswith('window ') or rest.startswith('iwindow '):
                k, r = rest.split(' ', 1)
                c.ret = (k,) + split_range(r)
            elif rest.startswith('fresh ') or rest.startswith('ifresh '):
                m = re.match(r'(i?fresh) (\w+) (\w+) (\w+) := (.*)', rest)
                c.ret = (m.group(1), m.group(2), expr(m.group(3)), m.group(4), expr(m.group(5)))
            elif rest.startswith('bits64 '):
                m = re.match(r'bits64 (\w+) := (.*)', rest)
                c.ret = ('bits64', m.group(1), expr(m.group(2)))
            elif rest == 'nothing':
                c.hasout = True
            else:
                t, e = rest.split(' := ')
                c.ret = ('scalar', t.strip(), expr(e))
        elif w == 'rebuf':
            c.rebuf = split_range(rest)
        elif w == 'grow':
            c.grow = expr(rest)
        elif w == 'onpanic':
            c.onpanic = split_range(rest[len('bits '):])
        elif w == 'noinvariant':
            c.noinvariant = True
        elif w == 'only':
            c.only = rest
        else:
            raise SpecError('unknown clause: ' + s)

    def link(self):
        done = {}
        for k, c in self.contracts.items():
            if isinstance(c, Contract):
                done[k] = c
        for k, c in self.contracts.items():
            if isinstance(c, Contract):
                continue
            _, p, nm, params, base, bargs, field, adv = c
            b = done[(p, 'Buffer', base)]
            n = Contract()
            n.pkg, n.recv, n.name, n.params = p, 'Buffer', nm, params
            args = []
            depth, cur = 0, ''
            for ch in bargs:
                if ch == ',' and depth == 0:
                    args.append(cur)
                    cur = ''
                else:
                    cur += ch
            if cur.strip():
                args.append(cur)
            m = {q.name: expr(a) for q, a in zip(b.params, args)}
            S = lambda e: Sub(m).visit(copy.deepcopy(e))
            n.groups = b.groups + ['next']
            n.requires = [S(e) for e in b.requires]
            n.panics = [(e, S(x), al) for e, x, al in b.panics]
            n.maypanics = [S(x) for x in b.maypanics]
            n.writes = [(k2, v, S(lo), S(hi), S(e)) for k2, v, lo, hi, e in b.writes]
            n.sets = [(f, S(e)) for f, e in b.sets] + [(field, expr('wrap(b.%s + (%s))' % (field, adv)))]
            n.ret = tuple(S(x) if isinstance(x, ast.AST) else x for x in b.ret) if b.ret else None
            n.onpanic = tuple(S(x) for x in b.onpanic) if b.onpanic else None
            n.only = b.only
            n.next_of = base
            n.hasout = b.hasout
            done[(p, 'Buffer', nm)] = n
        # MiniBuffer: the same contracts; bounds conditions become preconditions,
        # results go through the out pointer
        for (p, _, nm), c in list(done.items()):
            if c.only == 'Buffer':
                continue
            m = copy.copy(c)
            m.recv, m.mini = 'MiniBuffer', True
            m.panics = []
            m.requires = list(c.requires)
            for e, x, always in c.panics:
                if always:
                    m.panics.append((e, x, always))
                else:
                    m.requires.append(ast.UnaryOp(ast.Not(), x))
            m.onpanic = None
            if c.ret or c.hasout:
                m.out = 'out'
                m.params = [Param('out', '*')] + c.params
            done[(p, 'MiniBuffer', nm)] = m
        self.contracts = done

    def of(self, pkg, recv, fname):
        """all behaviours of one method"""
        return [c for (p, r, n), c in self.contracts.items() if p == pkg and r == recv and n.split('@')[0] == fname]


# ====================================================================== symbolic
class YVal:
    """bit address 8*byte + j"""

    def __init__(self, byte, j):
        self.byte, self.j = byte, j

    def int(self):
        return simp_i(zi(self.byte) * 8 + self.j)


class SBV:
    """bit-vector scalar in a contract"""

    def __init__(self, v, signed=False):
        self.v, self.s = v, signed


def as_int(x):
    if isinstance(x, YVal):
        return x.int()
    if isinstance(x, SBV):
        c = bv_const(x.v)
        if c is not None:
            return c
        return z3.BV2Int(x.v, x.s)
    return x


def as_bv(x, w):
    if isinstance(x, SBV):
        if x.v.size() != w:
            if x.v.size() < w:
                return z3.ZeroExt(w - x.v.size(), x.v)
            raise SpecError('width')
        return x.v
    if isinstance(x, int):
        return bvc(x, w)
    raise SpecError('not a bit-vector: %r' % (x,))


class SymEnv:
    """contract expressions over one (pre-)state"""

    def __init__(self, fields, buf, mem, params):
        self.fields, self.buf, self.mem, self.params = fields, buf, mem, params
        self.vars = {}

    def with_vars(self, **kw):
        e = SymEnv(self.fields, self.buf, self.mem, self.params)
        e.vars = dict(self.vars)
        e.vars.update(kw)
        return e

    # ---- primitives
    def byte(self, r):
        return SBV(self.mem[self.buf.rid].read(iadd_(self.buf.ptr, as_int(r))).bv())

    def bit(self, y):
        if isinstance(y, YVal):
            return SBV(z3.Extract(7 - y.j, 7 - y.j, self.byte(y.byte).v))
        y = as_int(y)
        b = self.byte(simp_i(zi(y) / 8)).v
        r = simp_i(zi(y) % 8)
        if is_c(r):
            return SBV(z3.Extract(7 - r, 7 - r, b))
        t = z3.Extract(0, 0, b)
        for j in range(6, -1, -1):
            t = z3.If(r == j, z3.Extract(7 - j, 7 - j, b), t)
        return SBV(t)

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in self.vars:
                return self.vars[n.id]
            v = self.params[n.id]
            return self.lift(v)
        if isinstance(n, ast.Attribute):
            return self.fields[n.attr]
        if isinstance(n, ast.Subscript):
            base = n.value.id
            i = as_int(self.ev(n.slice))
            if base == 'b':
                return self.byte(i)
            s = self.params[base]
            v = self.mem[s.rid].read(iadd_(s.ptr, i))
            if isinstance(v, IV) and v.s and v.w == 64 and self.int_elems(base):
                return v.int()
            return SBV(v.bv(), v.s)
        if isinstance(n, ast.BinOp):
            a, b = as_int(self.ev(n.left)), as_int(self.ev(n.right))
            if isinstance(n.op, ast.Add):
                return iadd_(a, b)
            if isinstance(n.op, ast.Sub):
                return a - b if is_c(a) and is_c(b) else simp_i(zi(a) - zi(b))
            if isinstance(n.op, ast.Mult):
                return a * b if is_c(a) and is_c(b) else simp_i(zi(a) * zi(b))
            if isinstance(n.op, ast.FloorDiv):
                return a // b if is_c(a) and is_c(b) else simp_i(zi(a) / zi(b))
            if isinstance(n.op, ast.Mod):
                return a % b if is_c(a) and is_c(b) else simp_i(zi(a) % zi(b))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return bnot(self.ev(n.operand))
            if isinstance(n.op, ast.USub):
                a = as_int(self.ev(n.operand))
                return -a
        if isinstance(n, ast.BoolOp):
            xs = [self.ev(x) for x in n.values]
            return band(*xs) if isinstance(n.op, ast.And) else bor(*xs)
        if isinstance(n, ast.Compare):
            a, b = self.ev(n.left), self.ev(n.comparators[0])
            return self.cmp(n.ops[0], a, b)
        if isinstance(n, ast.IfExp):
            c = self.ev(n.test)
            c = simp_b(c)
            if isinstance(c, bool):
                return self.ev(n.body if c else n.orelse)
            a, b = self.ev(n.body), self.ev(n.orelse)
            if isinstance(a, SBV) or isinstance(b, SBV):
                w = (a if isinstance(a, SBV) else b).v.size()
                return SBV(z3.If(c, as_bv(a, w), as_bv(b, w)))
            return iite(c, as_int(a), as_int(b))
        if isinstance(n, ast.Call):
            return self.call(n.func.id, n.args)
        raise SpecError('expression ' + ast.dump(n))

    def int_elems(self, base):
        return self.params[base].elem == 'int64' and getattr(self.params[base], 'elem', None) == 'int64' and base == 'off'

    def lift(self, v):
        if isinstance(v, IV):
            if v.rep == 'i':
                return v.v
            return SBV(v.v, v.s)
        if isinstance(v, BoolV):
            return v.v
        return v

    def cmp(self, op, a, b):
        if isinstance(a, SBV) and isinstance(b, int) and not a.s and 0 <= b < (1 << a.v.size()):
            x, y = a.v, bvc(b, a.v.size())
            k = type(op).__name__
            return {'Gt': lambda: z3.UGT(x, y), 'Lt': lambda: z3.ULT(x, y), 'GtE': lambda: z3.UGE(x, y),
                    'LtE': lambda: z3.ULE(x, y), 'Eq': lambda: x == y, 'NotEq': lambda: x != y}[k]()
        a, b = as_int(a), as_int(b)
        k = type(op).__name__
        return {'Gt': lambda: ilt(b, a), 'Lt': lambda: ilt(a, b), 'GtE': lambda: ile(b, a), 'LtE': lambda: ile(a, b),
                'Eq': lambda: ieq(a, b), 'NotEq': lambda: bnot(ieq(a, b))}[k]()

    def call(self, f, args):
        if f == 'len':
            nm = args[0].id
            return self.buf.len if nm == 'b' else self.params[nm].len
        if f == 'storage':
            return self.buf.cap
        a = [self.ev(x) for x in args]
        if f == 'bit':
            return self.bit(a[0])
        if f == 'bitof':
            k = as_int(a[1])
            if isinstance(a[0], int):
                a[0] = SBV(bvc(a[0], 64))
            v = a[0].v
            w = v.size()
            if is_c(k):
                return SBV(z3.Extract(k, k, v)) if 0 <= k < w else SBV(bvc(0, 1))
            t = bvc(0, 1)
            for j in range(w - 1, -1, -1):
                t = z3.If(k == j, z3.Extract(j, j, v), t)
            return SBV(t)
        if f in ('flip', 'flip8'):
            w = 1 if f == 'flip' else 8
            return SBV(~as_bv(a[0], w))
        if f in ('byteLE', 'byteBE'):
            v, k, w = a[0].v, as_int(a[1]), a[2]
            if f == 'byteBE':
                k = w - 1 - k
            if is_c(k):
                return SBV(z3.Extract(8 * k + 7, 8 * k, v))
            t = z3.Extract(8 * w - 1, 8 * w - 8, v)
            for j in range(w - 2, -1, -1):
                t = z3.If(k == j, z3.Extract(8 * j + 7, 8 * j, v), t)
            return SBV(t)
        if f in ('loadLE', 'loadBE'):
            p, w = as_int(a[0]), a[1]
            bs = [self.byte(iadd_(p, j)).v for j in range(w)]
            if f == 'loadLE':
                bs.reverse()
            return SBV(z3.Concat(*bs))
        if f == 'wrap':
            e = as_int(a[0])
            lo = -(1 << 63)
            if is_c(e):
                return ((e - lo) % (1 << 64)) + lo
            return z3.If(z3.And(e >= lo, e < (1 << 63)), e, (e - lo) % (1 << 64) + lo)
        if f == 'tdiv':
            x, c = zi(as_int(a[0])), a[1]
            return z3.If(x >= 0, x / c, -((-x) / c))
        raise SpecError('function ' + f)

    # ---- effects as memory nodes
    def write_node(self, wr, parent, lo=None, hi=None):
        kind, var, elo, ehi, e = wr
        lo = as_int(self.ev(elo)) if lo is None else lo
        hi = as_int(self.ev(ehi)) if hi is None else hi
        ptr = self.buf.ptr
        if kind == 'bytes':
            def f(x):
                r = isub_(x, ptr)
                return band(ile(lo, r), ilt(r, hi)), \
                    (lambda: IV(8, False, 'b', as_bv(self.with_vars(**{var: r}).ev(e), 8)))
            return MComp(parent, f)

        def g(x):
            r = isub_(x, ptr)
            base = simp_i(zi(r) * 8)

            def val():
                old = parent.read(x).bv()
                bits = []
                for j in range(8):
                    y = YVal(r, j)
                    yi = y.int()
                    inr = simp_b(band(ile(lo, yi), ilt(yi, hi)))
                    ob = z3.Extract(7 - j, 7 - j, old)
                    if inr is False:
                        bits.append(ob)
                        continue
                    nb = as_bv(self.with_vars(**{var: y}).ev(e), 1)
                    bits.append(bvite(inr, nb, ob))
                return IV(8, False, 'b', z3.Concat(*bits))
            return band(ilt(lo, iadd_(base, 8)), ilt(base, hi)), val
        return MComp(parent, g)

    def in_write(self, wr, x):
        """is address x inside the range of the write clause"""
        kind, var, elo, ehi, e = wr
        lo, hi = as_int(self.ev(elo)), as_int(self.ev(ehi))
        r = isub_(x, self.buf.ptr)
        if kind == 'bytes':
            return band(ile(lo, r), ilt(r, hi))
        base = simp_i(zi(r) * 8)
        return band(ilt(lo, iadd_(base, 8)), ilt(base, hi))

    def bits64(self, ret, shown=None):
        """64-bit value whose bit j is the clause's expression; `shown` maps j to
        an extra condition under which the bit counts"""
        _, var, e = ret
        bits = []
        for j in range(64):
            v = as_bv(self.with_vars(**{var: j}).ev(e), 1)
            bits.append(v)
        bits.reverse()
        return z3.Concat(*bits)


def iadd_(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return simp_i(zi(a) + zi(b))


def isub_(a, b):
    if is_c(a) and is_c(b):
        return a - b
    if is_c(b) and b == 0:
        return a
    return simp_i(zi(a) - zi(b))


# ====================================================================== concrete
class ConcEnv:
    """contract expressions over concrete values.
    mem: byte list of the arena; params: ints, bools, or ('slice', [elements as
    bit patterns], elemtype)"""

    def __init__(self, fields, bufbytes, params):
        self.fields, self.b, self.params = fields, bufbytes, params
        self.vars = {}
        self.storage = len(bufbytes)

    def bit(self, y):
        return (self.b[y // 8] >> (7 - y % 8)) & 1

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in self.vars:
                return self.vars[n.id]
            return self.params[n.id]
        if isinstance(n, ast.Attribute):
            return self.fields[n.attr]
        if isinstance(n, ast.Subscript):
            i = self.ev(n.slice)
            if n.value.id == 'b':
                return self.b[i]
            s = self.params[n.value.id]
            v = s[1][i]
            if n.value.id == 'off' and s[2] == 'int64' and v >= 1 << 63:
                v -= 1 << 64
            return v
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left), self.ev(n.right)
            k = type(n.op).__name__
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'FloorDiv': lambda: a // b,
                    'Mod': lambda: a % b}[k]()
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand)
            return (not v) if isinstance(n.op, ast.Not) else -v
        if isinstance(n, ast.BoolOp):
            if isinstance(n.op, ast.And):
                return all(self.ev(x) for x in n.values)
            return any(self.ev(x) for x in n.values)
        if isinstance(n, ast.Compare):
            a, b = self.ev(n.left), self.ev(n.comparators[0])
            k = type(n.ops[0]).__name__
            return {'Gt': a > b, 'Lt': a < b, 'GtE': a >= b, 'LtE': a <= b, 'Eq': a == b, 'NotEq': a != b}[k]
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.ev(n.test) else n.orelse)
        if isinstance(n, ast.Call):
            f = n.func.id
            if f == 'len':
                nm = n.args[0].id
                return len(self.b) if nm == 'b' else len(self.params[nm][1])
            if f == 'storage':
                return self.storage
            a = [self.ev(x) for x in n.args]
            if f == 'bit':
                return self.bit(a[0])
            if f == 'bitof':
                return (a[0] >> a[1]) & 1 if a[1] >= 0 else 0
            if f == 'flip':
                return 1 - a[0]
            if f == 'flip8':
                return a[0] ^ 255
            if f == 'byteLE':
                return (a[0] >> (8 * a[1])) & 255
            if f == 'byteBE':
                return (a[0] >> (8 * (a[2] - 1 - a[1]))) & 255
            if f in ('loadLE', 'loadBE'):
                bs = self.b[a[0]:a[0] + a[1]]
                return int.from_bytes(bytes(bs), 'little' if f == 'loadLE' else 'big')
            if f == 'wrap':
                return ((a[0] + (1 << 63)) % (1 << 64)) - (1 << 63)
            if f == 'tdiv':
                q = abs(a[0]) // a[1]
                return -q if a[0] < 0 else q
        raise SpecError('expression ' + ast.dump(n))

    def at(self, **kw):
        e = ConcEnv(self.fields, self.b, self.params)
        e.storage = self.storage
        e.vars = dict(self.vars)
        e.vars.update(kw)
        return e
