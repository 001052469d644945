"""Forward symbolic execution of SSA: generates the path outcomes (and, through
loops.py, the inductive obligations) of one function of the real code."""
import re
import z3
from vals import *

BASIC = {'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True),
         'uint': (64, False), 'uint8': (8, False), 'uint16': (16, False), 'uint32': (32, False),
         'uint64': (64, False), 'uintptr': (64, False), 'byte': (8, False), 'rune': (32, True),
         'untyped int': (64, True), 'untyped rune': (32, True)}
FLOATS = {'float32': 32, 'float64': 64}


class State:
    __slots__ = ('pc', 'mem', 'cells', 'locks', 'bad', 'panics', 'sections')

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.cells = {}
        self.locks = {}
        self.bad = ()
        self.panics = ()             # per deferred call that runs: the panic being handled, or None
        self.sections = ()           # critical sections so far: (state at acquire, state at release or None)

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.cells = dict(self.cells)
        s.locks = dict(self.locks)
        s.bad = self.bad
        s.panics = self.panics
        s.sections = self.sections
        return s

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(f)


class Frame:
    __slots__ = ('fn', 'regs', 'defers', 'active', 'depth', 'unroll', 'outer', 'deferred')

    def __init__(self, fn, depth):
        self.fn, self.regs, self.defers, self.active, self.depth = fn, {}, (), (), depth
        self.unroll = 0
        self.deferred = False        # called by the run time as a deferred call
        self.outer = frozenset()     # regions the caller handed in

    def fork(self):
        f = Frame(self.fn, self.depth)
        f.regs = dict(self.regs)
        f.defers = self.defers
        f.active = self.active
        f.outer = self.outer
        f.deferred = self.deferred
        return f


class Outcome:
    """kind: ret | panic | back | exit"""
    __slots__ = ('kind', 'st', 'val', 'fr', 'edge')

    def __init__(self, kind, st, val=None, fr=None, edge=None):
        self.kind, self.st, self.val, self.fr, self.edge = kind, st, val, fr, edge


class Region:
    __slots__ = ('rid', 'elem', 'kind')

    def __init__(self, rid, elem, kind):
        self.rid, self.elem, self.kind = rid, elem, kind


def has_array(v):
    if isinstance(v, StructV):
        return any(has_array(x) for x in v.f)
    return isinstance(v, (ArrRef, ArrV))


def plus(a, b):
    return a + b if is_c(a) and is_c(b) else simp_i(zi(a) + zi(b))


def has_float(v):
    if isinstance(v, StructV):
        return any(has_float(x) for x in v.f)
    if isinstance(v, IfaceV):
        return has_float(v.v)
    if isinstance(v, ArrV):
        return v.elem not in ('uint8', 'byte', 'uint16', 'uint32', 'uint64', 'uint', 'int', 'int8', 'int16', 'int32', 'int64', 'bool')
    return isinstance(v, IV) and v.fl


class Ctx:
    """one verification run of one function"""

    def __init__(self, pkg, prover):
        self.pkg = pkg
        self.pr = prover
        self.n = 0
        self.regions = {}
        self.optimistic = 0
        self.apply = None            # contract application hook
        self.spec = None             # candidate provider for loops (spec side)
        self.lock_obj = None         # object whose mutation needs its mutex
        self.lock_rid = None
        self.rely = None             # what other goroutines may do while the lock is free
        self.extra_bad = []
        self.loop_log = []
        self.term_fail = []
        self.inlined = set()
        self.applied = {}
        self.global_init = {}
        self.mutable_globals = set()
        self.bounded = None          # bounded unrolling depth (counterexample search only)
        self.cut = 0
        self.steps = 0
        self.max_steps = 60000

    # ------------------------------------------------------------ naming
    def fresh(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    # ------------------------------------------------------------ types
    def ty(self, t):
        return self.pkg.types[t]

    def under(self, t):
        d = self.ty(t)
        if d['k'] == 'basic':
            u = d['under']
            return {'byte': 'uint8', 'rune': 'int32'}.get(u, u)
        return t

    def intinfo(self, t):
        d = self.ty(t)
        if d['k'] != 'basic':
            return None
        u = self.under(t)
        if u in BASIC:
            return BASIC[u] + (False,)
        if u in FLOATS:
            return (FLOATS[u], False, True)
        return None

    def esize(self, t):
        ii = self.intinfo(t)
        if ii:
            return ii[0] // 8
        d = self.ty(t)
        if d['k'] == 'array':
            return d['len'] * self.esize(d['elem'])
        return {'slice': 24, 'iface': 16, 'ptr': 8}.get(d['k'], 8)

    def zero(self, t, st):
        d = self.ty(t)
        ii = self.intinfo(t)
        if ii:
            return IV(ii[0], ii[1], 'i', 0, ii[2])
        k = d['k']
        if k == 'basic':
            if self.under(t) in ('bool', 'untyped bool'):
                return BoolV(False)
            if self.under(t) in ('string', 'untyped string'):
                return StrV(())
            return NilV(t)
        if k == 'slice':
            return SliceV(self.ekey(d['elem']), self.ext(d['elem'], st), 0, 0, 0, True)
        if k == 'struct':
            if t == 'sync.Mutex' or t == 'sync.RWMutex':
                return Opaque('mutex')
            return StructV(t, [self.zero(f['t'], st) for f in d['fields']])
        if k == 'array':
            rid = self.new_region(d['elem'], 'fresh', st, zero=True)
            return ArrRef(rid, d['len'], d['elem'])
        return NilV(t)

    def ekey(self, t):
        return t

    def ext(self, elem, st):
        """the region of all pre-existing memory of one element type"""
        u = self.under(elem) if self.ty(elem)['k'] == 'basic' else elem
        rid = 'ext:' + u
        if rid not in self.regions:
            if self.holds_array(elem):
                raise Unsupported('memory whose elements hold arrays')
            self.regions[rid] = Region(rid, elem, 'ext')
        if rid not in st.mem:
            st.mem[rid] = self.ext_base(rid, elem)
        return rid

    _ext_cache = None

    def ext_base(self, rid, elem):
        if self._ext_cache is None:
            self._ext_cache = {}
        if rid not in self._ext_cache:
            self._ext_cache[rid] = MBase(self.base_reader('mem_' + rid[4:], elem))
        return self._ext_cache[rid]

    def base_reader(self, name, elem):
        ii = self.intinfo(elem)
        if ii:
            f = z3.Function(name, z3.IntSort(), z3.BitVecSort(ii[0]))
            return lambda x: IV(ii[0], ii[1], 'b', f(zi(x)), ii[2])
        d = self.ty(elem)
        if d['k'] == 'slice':
            g = {k: z3.Function(name + '_' + k, z3.IntSort(), z3.IntSort()) for k in ('ptr', 'len', 'cap')}
            nl = z3.Function(name + '_nil', z3.IntSort(), z3.BoolSort())
            inner = d['elem']

            def rd(x):
                u = self.under(inner)
                x = zi(x)
                return SliceV(inner, 'ext:' + u, g['ptr'](x), g['len'](x), g['cap'](x), nl(x))
            return rd
        if d['k'] == 'basic' and self.under(elem) == 'bool':
            f = z3.Function(name, z3.IntSort(), z3.BoolSort())
            return lambda x: BoolV(f(zi(x)))
        raise Unsupported('memory of element type ' + elem)

    def new_region(self, elem, kind, st, zero=False, node=None):
        rid = self.fresh('r')
        self.regions[rid] = Region(rid, elem, kind)
        if self.holds_array(elem):
            raise Unsupported('memory whose elements hold arrays')
        if node is None:
            if zero:
                z = self.zero(elem, st)
                node = MBase(lambda x: z)
            else:
                node = MBase(self.base_reader(rid + '_m', elem))
        st.mem[rid] = node
        return rid

    def holds_array(self, t):
        d = self.ty(t)
        return d['k'] == 'array' or d['k'] == 'struct' and any(self.holds_array(f['t']) for f in d['fields'])

    def slice_facts(self, s):
        """well-formedness of a slice header that exists in memory"""
        es = self.esize(s.elem)
        lim = MAXADDR // max(1, es)
        fs = [ile(0, s.len), ile(s.len, s.cap), ile(s.cap, lim), ile(1, s.ptr), ile(zi(s.ptr) + zi(s.cap), lim)]
        if s.nil is not False:
            fs.append(bimp(s.nil, ieq(s.cap, 0)))
        return [f for f in fs if f is not True]

    def fresh_value(self, t, name, st):
        """an arbitrary value of type t"""
        ii = self.intinfo(t)
        if ii:
            w, s, fl = ii
            if s and w == 64 and not fl:
                x = z3.Int(name)
                st.assume(z3.And(x >= -(1 << 63), x <= (1 << 63) - 1))
                return IV(w, s, 'i', x)
            return IV(w, s, 'b', z3.BitVec(name, w), fl)
        d = self.ty(t)
        k = d['k']
        if k == 'basic':
            if self.under(t) == 'bool':
                return BoolV(z3.Bool(name))
            if self.under(t) == 'string':
                return StrV((('atom', name),))
        if k == 'slice':
            s = SliceV(d['elem'], self.ext(d['elem'], st), z3.Int(name + '.ptr'), z3.Int(name + '.len'),
                       z3.Int(name + '.cap'), z3.Bool(name + '.nil'))
            for f in self.slice_facts(s):
                st.assume(f)
            return s
        if k == 'struct':
            if t in ('sync.Mutex', 'sync.RWMutex'):
                return Opaque('mutex')
            return StructV(t, [self.fresh_value(f['t'], name + '.' + f['name'], st) for f in d['fields']])
        if k == 'ptr':
            obj = self.fresh('o')
            st.cells[obj] = self.fresh_value(d['elem'], name + '^', st)
            return PtrV(obj, (), d['elem'])
        if k == 'array':             # memory of its own, but not of this call
            rid = self.new_region(d['elem'], 'old', st)
            return ArrRef(rid, d['len'], d['elem'])
        return Opaque(name)

    # ------------------------------------------------------------ cells
    def cell_get(self, st, p):
        if p.obj not in st.cells:
            if p.obj.startswith('global:'):
                self.load_global(st, p.obj[7:])
            else:
                raise Unsupported('unknown object ' + p.obj)
        v = st.cells[p.obj]
        for i in p.path:
            if not isinstance(v, StructV):
                raise Unsupported('field of ' + type(v).__name__)
            v = v.f[i]
        return v

    def load_global(self, st, name):
        o = 'global:' + name
        if name in self.mutable_globals or name not in self.global_init:
            g = self.pkg.globals.get(name)
            if g is None:
                # a variable of another package: only empty structs have a known value
                t = None
            else:
                t = self.ty(g['t'])['elem']
            if t is None:
                st.cells[o] = Opaque(name)
            else:
                st.cells[o] = self.fresh_value(t, name, st)
            return
        v, regs = self.global_init[name]
        for rid, (elem, node) in regs.items():
            self.regions.setdefault(rid, Region(rid, elem, 'global'))
            st.mem.setdefault(rid, node)
        st.cells[o] = v

    def cell_set(self, st, p, val):
        def upd(v, path):
            if not path:
                return val
            if not isinstance(v, StructV):
                raise Unsupported('store into ' + type(v).__name__)
            f = list(v.f)
            f[path[0]] = upd(f[path[0]], path[1:])
            return StructV(v.t, f)
        if p.obj not in st.cells and p.obj.startswith('global:'):
            self.load_global(st, p.obj[7:])
        if self.lock_obj is not None and p.obj == self.lock_obj and st.locks.get(p.obj) is not True:
            st.bad = st.bad + ('field of the buffer written without holding its lock',)
        st.cells[p.obj] = upd(st.cells[p.obj], p.path)

    def coerce(self, v, t):
        """give a loaded value the static type t (unsafe casts keep the bits)"""
        ii = self.intinfo(t)
        if ii:
            if isinstance(v, IV):
                if (v.w, v.s, v.fl) == ii:
                    return v
                return v.retag(*ii)
            raise Unsupported('load of %s as %s' % (type(v).__name__, t))
        return v

    def load(self, st, p, t):
        if isinstance(p, PtrV):
            v = self.snap(st, self.cell_get(st, p))
            if isinstance(v, IV) and not self.same_width(v, t):
                if len(self.split(v)) != self.esize(t):
                    raise Unsupported('reinterpreting load')
                return self.assemble(self.split(v), t)
            if isinstance(v, ArrV) and self.intinfo(t):
                bs = [b for k in range(v.n) for b in self.split(v.node.read(k))] if v.n <= 8 else ()
                if len(bs) != self.esize(t):
                    raise Unsupported('reinterpreting load')
                return self.assemble(bs, t)
            return self.coerce(v, t)
        if isinstance(p, ArrPtr):
            if p.n > 64:
                raise Unsupported('load of a long array')
            pad = self.zero(p.elem, st)                 # never read: the index is in range
            node, mem = MBase(lambda x: pad), st.mem[p.rid]
            for k in range(p.n):
                node = MStore(node, k, mem.read(plus(p.addr, k)))
            return ArrV(node, p.n, p.elem)
        if isinstance(p, ElemPtr):
            ii = self.intinfo(self.regions[p.rid].elem)
            if p.raw or ii and self.intinfo(t) != ii and self.esize(t) * 8 != ii[0]:
                return self.assemble(self.raw_read(st, p, self.esize(t)), t)
            v = st.mem[p.rid].read(p.addr)
            if ii and not self.intinfo(t):
                return self.assemble(self.split(v), t)
            if isinstance(v, SliceV):
                self.ext(v.elem, st)
                if self.regions[p.rid].kind == 'ext':
                    for f in self.slice_facts(v):
                        st.assume(f)
                return v
            return self.coerce(v, t)
        raise Unsupported('load through ' + type(p).__name__)

    def snap(self, st, v):
        """the value of a cell: the arrays in it are copied"""
        if isinstance(v, ArrRef):
            return ArrV(st.mem[v.rid], v.n, v.elem)
        if isinstance(v, StructV) and has_array(v):
            return StructV(v.t, [self.snap(st, f) for f in v.f])
        return v

    def merge(self, st, old, v):
        """what a cell that held old holds once v is stored in it: its arrays stay where they are"""
        if isinstance(old, ArrRef):
            if not isinstance(v, ArrV):
                raise Unsupported('array store')
            self.note_mem_write(st, old.rid)
            st.mem[old.rid] = v.node
            return old
        if isinstance(old, StructV) and has_array(old):
            if not isinstance(v, StructV):
                raise Unsupported('array store')
            return StructV(v.t, [self.merge(st, o, f) for o, f in zip(old.f, v.f)])
        return v

    def note_mem_write(self, st, rid):
        if self.lock_obj is not None and rid == self.lock_rid and st.locks.get(self.lock_obj) is not True:
            st.bad = st.bad + ('buffer storage written without holding its lock',)

    def store(self, st, p, v, cond=None):
        if isinstance(p, PtrV):
            old = self.cell_get(st, p)
            if isinstance(old, ArrRef):
                self.merge(st, old, v)
                return
            v = self.merge(st, old, v)
            if isinstance(old, IV) and isinstance(v, IV) and (old.w, old.s, old.fl) != (v.w, v.s, v.fl):
                v = v.retag(old.w, old.s, old.fl)
            if isinstance(old, IV) != isinstance(v, IV):
                raise Unsupported('reinterpreting store')
            self.cell_set(st, p, v)
            return
        if isinstance(p, ArrPtr):
            if not isinstance(v, ArrV) or p.n > 64:
                raise Unsupported('array store')
            self.note_mem_write(st, p.rid)
            for k in range(p.n):
                st.mem[p.rid] = MStore(st.mem[p.rid], plus(p.addr, k), v.node.read(k))
            return
        if isinstance(p, ElemPtr):
            ii = self.intinfo(self.regions[p.rid].elem)
            if ii and (p.raw or isinstance(v, ArrV) or isinstance(v, IV) and v.w != ii[0]):
                if isinstance(v, ArrV):
                    if v.n > 64:
                        raise Unsupported('array store')
                    bs = [b for k in range(v.n) for b in self.split(v.node.read(k))]
                else:
                    bs = self.split(v)
                self.raw_write(st, p, bs)
                return
            if ii and isinstance(v, IV) and (v.w, v.s, v.fl) != ii:
                v = v.retag(*ii)
            if ii and not isinstance(v, IV):
                raise Unsupported('reinterpreting store')
            self.note_mem_write(st, p.rid)
            st.mem[p.rid] = MStore(st.mem[p.rid], p.addr, v)
            return
        raise Unsupported('store through ' + type(p).__name__)

    # ------------------------------------------------------------ memory seen as another type
    def same_width(self, v, t):
        ii = self.intinfo(t)
        return ii is not None and ii[0] == v.w

    def split(self, v):
        """the bytes of a number, least significant first"""
        if not isinstance(v, IV):
            raise Unsupported('bytes of ' + type(v).__name__)
        if v.w == 8:
            return [v]
        b = v.bv()
        return [IV(8, False, 'b', z3.simplify(z3.Extract(8 * k + 7, 8 * k, b))) for k in range(v.w // 8)]

    def assemble(self, bs, t):
        ii = self.intinfo(t)
        if ii:
            if len(bs) * 8 != ii[0]:
                raise Unsupported('reinterpreting load')
            if len(bs) == 1:
                return bs[0] if (bs[0].w, bs[0].s, bs[0].fl) == ii else bs[0].retag(*ii)
            return IV(ii[0], ii[1], 'b', z3.simplify(z3.Concat(*[b.bv() for b in reversed(bs)])), ii[2])
        d = self.ty(t)
        if d['k'] == 'array' and self.intinfo(d['elem']):
            w = self.esize(d['elem'])
            pad = self.zero(d['elem'], None)            # never read: the index is in range
            node = MBase(lambda x: pad)
            for k in range(d['len']):
                node = MStore(node, k, self.assemble(bs[k * w:k * w + w], d['elem']))
            return ArrV(node, d['len'], d['elem'])
        raise Unsupported('reinterpreting load of ' + t)

    def span_ok(self, st, p, m):
        """m elements from the pointer are inside what it was taken from"""
        if p.span is None:
            raise Unsupported('unsafe access')
        lo, hi = p.span
        g = band(ile(lo, p.addr), ile(iadd(p.addr, m), hi))
        if g is not True and not self.optimistic and not self.prove(st, zb(g)):
            raise Unsupported('an unsafe access not shown to stay inside its slice')

    def raw_read(self, st, p, n):
        u = self.esize(self.regions[p.rid].elem)
        if n < u:
            self.span_ok(st, p, 1)
            return self.split(st.mem[p.rid].read(p.addr))[:n]
        if n % u or n > 64:
            raise Unsupported('reinterpreting load')
        self.span_ok(st, p, n // u)
        return [b for k in range(n // u) for b in self.split(st.mem[p.rid].read(plus(p.addr, k)))]

    def raw_write(self, st, p, bs):
        elem = self.regions[p.rid].elem
        u = self.esize(elem)
        if len(bs) % u:
            raise Unsupported('reinterpreting store')
        self.span_ok(st, p, len(bs) // u)
        self.note_mem_write(st, p.rid)
        for k in range(len(bs) // u):
            st.mem[p.rid] = MStore(st.mem[p.rid], plus(p.addr, k), self.assemble(bs[k * u:k * u + u], elem))

    def move(self, st, p, k):
        """a pointer k bytes further"""
        if not isinstance(p, ElemPtr):
            raise Unsupported('pointer arithmetic')
        u = self.esize(self.regions[p.rid].elem)
        if u > 1:
            if is_c(k) and k % u == 0:
                k = k // u
            elif self.prove(st, zi(k) % u == 0):
                k = simp_i(zi(k) / u)
            else:
                raise Unsupported('pointer into an element')
        return ElemPtr(p.rid, iadd(p.addr, k), p.t, p.elem, p.span, True)

    def unsafe_slice(self, fr, st, p, n):
        n = n.int()
        if isinstance(p, NilV):
            c = simp_b(ieq(n, 0))
            if c is True or self.prove(st, zb(c)):
                return [Outcome('ret', st, self.zero('[]' + self.ty(p.t)['elem'], st) if '[]' + self.ty(p.t)['elem'] in self.pkg.types else None)]
            raise Unsupported('slice of nil')
        if not isinstance(p, ElemPtr) or p.t is None:
            raise Unsupported('unsafe.Slice of ' + type(p).__name__)
        elem = self.regions[p.rid].elem
        u, w = self.esize(elem), self.esize(p.t)
        if not self.intinfo(elem) or not self.intinfo(p.t):
            raise Unsupported('unsafe.Slice')
        c = simp_b(ile(0, n))
        if c is not True and not self.prove(st, zb(c)):
            raise Unsupported('unsafe.Slice of a length not shown to be positive')
        if w >= u:
            self.span_ok(st, p, simp_i(zi(n) * (w // u)) if not is_c(n) else n * (w // u))
        else:
            g = ile(simp_i(zi(n)), simp_i((zi(p.span[1]) - zi(p.addr)) * (u // w)))
            self.span_ok(st, p, 0)
            if g is not True and not self.prove(st, zb(g)):
                raise Unsupported('an unsafe access not shown to stay inside its slice')
        if w == u:
            return [Outcome('ret', st, SliceV(p.t, p.rid, p.addr, n, n, False))]
        return [Outcome('ret', st, View(p.rid, p.addr, p.t, n))]

    def reader(self, st, s):
        """element k of a slice or a view, now"""
        mem, at = st.mem[s.rid], s.ptr if isinstance(s, SliceV) else s.addr
        if isinstance(s, SliceV):
            return lambda k: mem.read(iadd(at, k))
        u, w = self.esize(self.regions[s.rid].elem), self.esize(s.elem)
        if w > u:
            m = w // u
            return lambda k: self.assemble([b for j in range(m) for b in self.split(
                mem.read(plus(iadd(at, simp_i(zi(k) * m) if not is_c(k) else k * m), j)))], s.elem)
        m = u // w
        if w != 1:
            raise Unsupported('view')

        def part(k):
            bs = self.split(mem.read(iadd(at, k // m if is_c(k) else simp_i(zi(k) / m))))
            if is_c(k):
                return bs[k % m]
            r = bs[m - 1]
            for j in range(m - 2, -1, -1):
                r = vite(simp_b(zi(k) % m == j), bs[j], r)
            return r
        return part

    def view_copy(self, st, d, s):
        """copy where one side is seen as another type"""
        n = self.imin(st, d.len, s.len)
        read = self.reader(st, s)
        elem = self.regions[d.rid].elem
        u, w = self.esize(elem), self.esize(d.elem)
        ii = self.intinfo(elem)
        self.note_mem_write(st, d.rid)
        if isinstance(d, SliceV):
            val = lambda k: self.coerce(read(k), elem)
            at, m = d.ptr, n
        elif w > u:
            q = w // u
            at, m = d.addr, n * q if is_c(n) else simp_i(zi(n) * q)

            def val(k):
                if is_c(k):
                    return self.split(read(k // q))[k % q]
                bs = self.split(read(simp_i(zi(k) / q)))
                r = bs[q - 1]
                for j in range(q - 2, -1, -1):
                    r = vite(simp_b(zi(k) % q == j), bs[j], r)
                return r
            if u != 1:
                raise Unsupported('view')
        else:
            q = u // w
            at = d.addr
            if is_c(n):
                if n % q:
                    raise Unsupported('copy of part of an element')
                m = n // q
            else:
                if not self.optimistic and not self.prove(st, zi(n) % q == 0):
                    raise Unsupported('copy of part of an element')
                m = simp_i(zi(n) / q)
            val = lambda k: self.assemble([read(plus(simp_i(zi(k) * q) if not is_c(k) else k * q, j)) for j in range(q)], elem)
        st.mem[d.rid] = MComp(st.mem[d.rid], in_range(at, m, val), ('range', at, m))
        return [Outcome('ret', st, IV(64, True, 'i', n))]

    # ------------------------------------------------------------ arithmetic
    def prove(self, st, g):
        if isinstance(g, bool):
            return g
        if self.optimistic:
            return True
        return self.pr.prove(st.pc, g)

    def norm(self, st, e, w, s):
        """the machine value of the mathematical integer e"""
        lo = -(1 << (w - 1)) if s else 0
        hi = (1 << (w - 1)) - 1 if s else (1 << w) - 1
        if is_c(e):
            return ((e - lo) % (1 << w)) + lo
        if self.prove(st, z3.And(e >= lo, e <= hi)):
            return e
        return (e - lo) % (1 << w) + lo

    def mk(self, st, e, w, s):
        return IV(w, s, 'i', self.norm(st, e, w, s))

    def arith(self, st, op, x, y):
        w, s = x.w, x.s
        if x.fl:
            raise Unsupported('floating-point arithmetic')
        cx, cy = x.const(), y.const()
        if op in '+-*':
            if (x.rep == 'i' or cx is not None) and (y.rep == 'i' or cy is not None) or \
               (x.rep == 'i' and cx is None) or (y.rep == 'i' and cy is None):
                a, b = x.int(), y.int()
                e = a + b if op == '+' else a - b if op == '-' else a * b
                if not is_c(e):
                    e = simp_i(e)
                return self.mk(st, e, w, s)
            a, b = x.bv(), y.bv()
            return IV(w, s, 'b', z3.simplify(a + b if op == '+' else a - b if op == '-' else a * b))
        if op in '/%':
            if cx is not None and cy is not None:
                q = abs(cx) // abs(cy)
                if (cx < 0) != (cy < 0):
                    q = -q
                return self.mk(st, q if op == '/' else cx - q * cy, w, s)
            if x.rep == 'b' and (y.rep == 'b' or cy is not None):
                a, b = x.bv(), y.bv()
                if s:
                    return IV(w, s, 'b', a / b if op == '/' else z3.SRem(a, b))
                return IV(w, s, 'b', z3.UDiv(a, b) if op == '/' else z3.URem(a, b))
            a, b = zi(x.int()), zi(y.int())
            if cy is not None:
                c = abs(cy)
                if self.prove(st, a >= 0):
                    q, r = a / c, a % c
                else:
                    q = z3.If(a >= 0, a / c, -((-a) / c))
                    r = z3.If(a >= 0, a % c, -((-a) % c))
                if op == '%':
                    return IV(w, s, 'i', simp_i(r))
                return self.mk(st, simp_i(-q if cy < 0 else q), w, s)
            if self.prove(st, z3.And(a >= 0, b > 0)):
                return IV(w, s, 'i', a / b if op == '/' else a % b)
            raise Unsupported('division by a variable of unknown sign')
        raise Unsupported('arith ' + op)

    def bitop(self, st, op, x, y):
        w, s = x.w, x.s
        cx, cy = x.const(), y.const()
        M = (1 << w) - 1
        if cx is not None and cy is not None:
            a, b = cx & M, cy & M
            r = {'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b & M}[op]
            if s and r >= 1 << (w - 1):
                r -= 1 << w
            return IV(w, s, 'i', r)
        if op == '&^' and cy is not None:
            y = IV(w, s, 'i', ((~cy) & M) - ((1 << w) if s and ((~cy) & M) >= 1 << (w - 1) else 0))
            op, cy = '&', y.const()
        if op == '&':
            for p, c in ((x, cy), (y, cx)):
                if p.rep == 'i' and c is not None:
                    m = c & M
                    if m == 0:
                        return IV(w, s, 'i', 0)
                    if m & (m + 1) == 0 and not (s and m == M):
                        return IV(w, s, 'i', simp_i(zi(p.v) % (m + 1)))
                    inv = ~m & M
                    if inv & (inv + 1) == 0:
                        return IV(w, s, 'i', simp_i(zi(p.v) - zi(p.v) % (inv + 1)))
        if op in '|^':
            if cy == 0:
                return x
            if cx == 0:
                return y
        a, b = x.bv(), y.bv()
        r = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '&^': lambda: a & ~b}[op]()
        return IV(w, s, 'b', r)

    def shift(self, st, op, x, y):
        w, s = x.w, x.s
        cx, cy = x.const(), y.const()
        left = op == '<<'
        if cy is not None:
            k = cy
            if cx is not None:
                if left:
                    return self.mk(st, cx << k if k < w else 0, w, s)
                return self.mk(st, cx >> min(k, w), w, s)
            if k == 0:
                return x
            if x.rep == 'i':
                if left:
                    if k >= w:
                        return IV(w, s, 'i', 0)
                    return self.mk(st, simp_i(zi(x.v) * (1 << k)), w, s)
                return IV(w, s, 'i', simp_i(zi(x.v) / (1 << min(k, w))))
            if k >= w:
                if left or not s:
                    return IV(w, s, 'i', 0)
                k = w - 1
            r = x.v << k if left else (x.v >> k if s else z3.LShR(x.v, k))
            return IV(w, s, 'b', r)
        if y.rep == 'i':
            a = x.bv()
            k = zi(y.v)
            fill = bvc(0, w)
            if not left and s:
                fill = a >> (w - 1)
            r = fill
            for i in range(w - 1, -1, -1):
                v = a if i == 0 else (a << i if left else (a >> i if s else z3.LShR(a, i)))
                r = z3.If(k == i, z3.simplify(v), r)
            return IV(w, s, 'b', r)
        a, k = x.bv(), y.v
        if y.w > w:
            big = z3.UGE(k, bvc(w, y.w))
            kk = z3.Extract(w - 1, 0, k)
            base = a << kk if left else (a >> kk if s else z3.LShR(a, kk))
            over = bvc(0, w) if left or not s else a >> (w - 1)
            return IV(w, s, 'b', z3.If(big, over, base))
        kk = z3.ZeroExt(w - y.w, k) if y.w < w else k
        return IV(w, s, 'b', a << kk if left else (a >> kk if s else z3.LShR(a, kk)))

    def compare(self, st, op, x, y):
        if isinstance(x, IV) and x.fl:
            return self.fcompare(op, x, y)
        if op in ('==', '!='):
            if has_float(x) or has_float(y):
                raise Unsupported('comparing floats inside a value')
            e = self.same(x, y)
            return e if op == '==' else bnot(e)
        if not isinstance(x, IV):
            raise Unsupported('ordering of ' + type(x).__name__)
        cx, cy = x.const(), y.const()
        if (x.rep == 'b' and cx is None and (y.rep == 'b' or cy is not None)) or \
           (y.rep == 'b' and cy is None and cx is not None):
            a, b = x.bv(), y.bv()
            if x.s:
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            return {'<': z3.ULT(a, b), '<=': z3.ULE(a, b), '>': z3.UGT(a, b), '>=': z3.UGE(a, b)}[op]
        a, b = x.int(), y.int()
        return {'<': ilt(a, b), '<=': ile(a, b), '>': ilt(b, a), '>=': ile(b, a)}[op]

    def same(self, x, y):
        if has_array(x) or has_array(y):
            if isinstance(x, StructV) and isinstance(y, StructV):
                return band(*[self.same(a, b) for a, b in zip(x.f, y.f)])
            if isinstance(x, ArrV) and isinstance(y, ArrV) and x.n == y.n <= 64:
                return band(*[veq(x.node.read(k), y.node.read(k)) for k in range(x.n)])
            raise Unsupported('comparing arrays')
        return veq(x, y)

    def fcompare(self, op, x, y):
        """IEEE comparison of two floats given by their bits"""
        w, m = x.w, {32: 23, 64: 52}[x.w]
        a, b = x.bv(), y.bv()
        nan = lambda v: z3.UGT(v & z3.BitVecVal((1 << (w - 1)) - 1, w), z3.BitVecVal(((1 << (w - 1 - m)) - 1) << m, w))
        zero = (a | b) << 1 == 0
        num = z3.Not(z3.Or(nan(a), nan(b)))
        eq = z3.And(num, z3.Or(a == b, zero))
        if op in ('==', '!='):
            return simp_b(eq if op == '==' else z3.Not(eq))
        if op in ('>', '>='):
            a, b = b, a
        # the order of the bits, reversed for negative numbers
        less = z3.If(a < 0, z3.Or(b >= 0, z3.UGT(a, b)), z3.And(b >= 0, z3.ULT(a, b)))
        lt = z3.And(num, z3.Not(zero), less)
        return simp_b(lt if op in ('<', '>') else z3.Or(eq, lt))

    def convert(self, st, v, t):
        ii = self.intinfo(t)
        if isinstance(v, IV):
            if ii is None:
                if self.ty(t)['k'] == 'basic' and self.under(t) == 'string':
                    raise Unsupported('integer to string conversion')
                raise Unsupported('conversion to ' + t)
            w, s, fl = ii
            if fl != v.fl or (fl and w != v.w):
                raise Unsupported('floating-point conversion')
            if fl:
                return v
            if v.rep == 'i':
                if is_c(v.v):
                    return self.mk(st, v.v, w, s)
                if IV(w, s, 'i', 0).lo() <= v.lo() and v.hi() <= IV(w, s, 'i', 0).hi():
                    return IV(w, s, 'i', v.v)
                return self.mk(st, v.v, w, s)
            if w == v.w:
                return IV(w, s, 'b', v.v)
            if w < v.w:
                return IV(w, s, 'b', z3.Extract(w - 1, 0, v.v))
            return IV(w, s, 'b', z3.SignExt(w - v.w, v.v) if v.s else z3.ZeroExt(w - v.w, v.v))
        if isinstance(v, AddrV):
            d = self.ty(t)
            if d['k'] == 'basic' and not ii:
                return self.move(st, v.p, v.off)
            return v
        if isinstance(v, ElemPtr):
            d = self.ty(t)
            if ii:
                return AddrV(v, 0)
            if d['k'] == 'ptr':
                return ElemPtr(v.rid, v.addr, d['elem'], v.elem, v.span, v.raw)
        if isinstance(v, (PtrV, ElemPtr)):
            d = self.ty(t)
            if ii:
                raise Unsupported('address as a number')
            if d['k'] == 'basic':                       # unsafe.Pointer
                if isinstance(v, PtrV):
                    return PtrV(v.obj, v.path, v.t)
                return v
            if d['k'] == 'ptr':
                return v
        if isinstance(v, NilV):
            return NilV(t)
        raise Unsupported('conversion of %s to %s' % (type(v).__name__, t))

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        k = o['k']
        if k == 'reg':
            return fr.regs[o['n']]
        if k == 'const':
            return self.const(o, st)
        if k == 'global':
            return PtrV('global:' + o['n'], (), self.ty(o['t'])['elem'])
        if k == 'func':
            return FuncV(o['n'])
        if k == 'builtin':
            return FuncV('builtin:' + o['n'])
        raise Unsupported('operand ' + k)

    def const(self, o, st):
        t, v = o['t'], o['v']
        ii = self.intinfo(t)
        if v is None:
            return self.snap(st, self.zero(t, st))
        if isinstance(v, bool):
            return BoolV(v)
        if ii:
            w, s, fl = ii
            if fl:
                import struct
                f = v['f'] if 'f' in v else float(int(v['i']))
                bits = struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', f))[0]
                return IV(w, False, 'i', bits, True)
            return IV(w, s, 'i', int(v['i']))
        if isinstance(v, dict) and 's' in v:
            return StrV((v['s'],))
        raise Unsupported('constant of type ' + t)

    # ------------------------------------------------------------ control
    def feasible(self, st, *extra):
        if self.optimistic > 1:
            return all(e is not False for e in extra)
        return self.pr.sat(st.pc, *extra)

    def run(self, fn, args, st, depth=0, binds=(), deferred=False):
        """all outcomes of calling fn"""
        if fn.blocks is None:
            raise Unsupported('no body: ' + fn.name)
        if depth > 12:
            raise Unsupported('call depth')
        fn.loops
        if getattr(fn, 'irreducible', False):
            raise Unsupported('irreducible control flow in ' + fn.name)
        fr = Frame(fn, depth)
        fr.deferred = deferred
        for (n, _), v in zip(fn.params, args):
            fr.regs[n] = v
        for (n, _), v in zip(fn.freevars, binds):
            fr.regs[n] = v
        import loops as L
        acc = set()
        for v in list(args) + list(binds):
            L.regions_of(v, acc, st)
        fr.outer = frozenset(acc)
        if depth:
            self.inlined.add(fn.name)
        return self.block(fr, st, 0, 0)

    def phivals(self, fr, st, frm, to):
        bs = fr.fn.blocks
        b = bs[to]
        idx = b['preds'].index(frm)
        out = {}
        for i in b['instrs']:
            if i['op'] != 'Phi':
                break
            e = i['e'][idx]
            out[i['reg']] = None if e is None else self.operand(fr, st, e)
        return out

    def goto(self, fr, st, frm, to):
        if fr.active:
            h, body = fr.active[-1]
            if to == h:
                return [Outcome('back', st, self.phivals(fr, st, frm, to), fr, (frm, to))]
            if to not in body:
                return [Outcome('exit', st, None, fr, (frm, to))]
        pv = self.phivals(fr, st, frm, to)
        loops = fr.fn.loops
        if to in loops:
            import loops as L
            return L.run_loop(self, fr, st, to, pv, loops[to])
        return self.enter(fr, st, to, pv)

    def enter(self, fr, st, to, pv):
        fr.regs.update(pv)
        n = 0
        for i in fr.fn.blocks[to]['instrs']:
            if i['op'] != 'Phi':
                break
            n += 1
        return self.block(fr, st, to, n)

    def throw(self, fr, st, val):
        """panic in this frame: run its deferred calls, then propagate or, when
        one of them recovered, return the named results"""
        outs = []
        for s, v in self.run_defers(fr, st, val):
            if v is not None:
                outs.append(Outcome('panic', s, v, None))
            else:
                outs.extend(self.recovered(fr, s))
        return outs

    def recovered(self, fr, st):
        fn = fr.fn
        f = fr.fork()
        f.defers = f.active = ()
        if fn.recover is not None:
            return self.block(f, st, fn.recover, 0)
        if fn.results:
            raise Unsupported('recovering in a function with unnamed results')
        return [Outcome('ret', st, TupleV([]))]

    def run_defers(self, fr, st, val):
        """[(state, panic or None)] after the deferred calls of the frame; val
        is the panic that unwinds it"""
        states = [(st, val)]
        for f, args in reversed(fr.defers):
            nxt = []
            for s, v in states:
                s.panics = s.panics + (v,)
                for o in self.call_value(fr, s, f, args, True):
                    cur = o.st.panics[-1]
                    o.st.panics = o.st.panics[:-1]
                    nxt.append((o.st, cur if o.kind == 'ret' else o.val))
            states = nxt
        return states

    def b_recover(self, fr, st):
        if not fr.deferred or st.panics[-1] is None:
            return NilV('interface{}')
        v = st.panics[-1]
        st.panics = st.panics[:-1] + (None,)
        return v if isinstance(v, IfaceV) else IfaceV('?panic', v)

    def guard(self, fr, st, ok, what, outs):
        """run-time check: fork a panic when ok can fail.  Returns False when
        the normal path is infeasible."""
        if ok is True:
            return True
        if self.optimistic:
            return ok is not False
        if ok is False:
            outs.extend(self.throw(fr.fork(), st.fork(), RtPanic(what)))
            return False
        if self.pr.sat(st.pc, bnot(ok)):
            s2 = st.fork()
            s2.assume(bnot(ok))
            outs.extend(self.throw(fr.fork(), s2, RtPanic(what)))
            if not self.pr.sat(st.pc, ok):
                return False
            st.assume(ok)
        return True

    def block(self, fr, st, bi, idx):
        outs = []
        instrs = fr.fn.blocks[bi]['instrs']
        succs = fr.fn.blocks[bi]['succs']
        regs = fr.regs
        n = len(instrs)
        while idx < n:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('too many symbolic steps')
            i = instrs[idx]
            idx += 1
            op = i['op']
            if op == 'Jump':
                outs.extend(self.goto(fr, st, bi, succs[0]))
                return outs
            if op == 'If':
                c = self.operand(fr, st, i['x']).v
                c = simp_b(c)
                if isinstance(c, bool):
                    outs.extend(self.goto(fr, st, bi, succs[0 if c else 1]))
                    return outs
                for k, cc in ((0, c), (1, bnot(c))):
                    if self.feasible(st, cc):
                        s2 = st.fork()
                        s2.assume(cc)
                        outs.extend(self.goto(fr.fork(), s2, bi, succs[k]))
                return outs
            if op == 'Return':
                r = [self.operand(fr, st, x) for x in i['r']]
                v = r[0] if len(r) == 1 else TupleV(r)
                outs.append(Outcome('ret', st, v))
                return outs
            if op == 'Panic':
                v = self.operand(fr, st, i['x'])
                if isinstance(v, IfaceV) and v.dyn == '?panic':
                    v = v.v
                outs.extend(self.throw(fr, st, v))
                return outs
            if op == 'Call':
                res = self.call(fr, st, i['call'], outs)
                if res is None:
                    return outs
                rets = [o for o in res if o.kind == 'ret']
                for o in res:
                    if o.kind == 'panic':
                        outs.extend(self.throw(fr.fork(), o.st, o.val))
                if len(rets) == 1:
                    st = rets[0].st
                    regs[i['reg']] = rets[0].val
                    continue
                for o in rets:
                    f2 = fr.fork()
                    f2.regs[i['reg']] = o.val
                    outs.extend(self.block(f2, o.st, bi, idx))
                return outs
            if op == 'RunDefers':
                if not fr.defers:
                    continue
                states = self.run_defers(fr, st, None)
                fr.defers = ()
                bad = [(s, v) for s, v in states if v is not None]
                for s, v in bad:
                    outs.append(Outcome('panic', s, v, None))
                states = [s for s, v in states if v is None]
                if len(states) == 1:
                    st = states[0]
                    continue
                for s in states:
                    outs.extend(self.block(fr.fork(), s, bi, idx))
                return outs
            r = self.instr(fr, st, i, op, outs)
            if r is False:
                return outs
        raise Unsupported('block falls through')

    # one non-control instruction; False = path ends here
    def instr(self, fr, st, i, op, outs):
        regs = fr.regs
        O = lambda k: self.operand(fr, st, i[k])
        if op == 'Phi':
            raise Unsupported('phi')
        if op == 'UnOp':
            return self.unop(fr, st, i, outs)
        if op == 'BinOp':
            return self.binop(fr, st, i, outs)
        if op == 'FieldAddr':
            p = O('x')
            if not isinstance(p, PtrV):
                if isinstance(p, NilV):
                    outs.extend(self.throw(fr, st, RtPanic('nil pointer dereference')))
                    return False
                raise Unsupported('field of an element')
            regs[i['reg']] = PtrV(p.obj, p.path + (i['i'],), self.ty(i['t'])['elem'])
            return
        if op == 'Field':
            s = O('x')
            if not isinstance(s, StructV):
                raise Unsupported('field')
            regs[i['reg']] = s.f[i['i']]
            return
        if op == 'IndexAddr':
            x = O('x')
            k = O('i').int()
            et = self.ty(i['t'])['elem']
            if isinstance(x, SliceV):
                if not self.guard(fr, st, band(ile(0, k), ilt(k, x.len)), 'index out of range', outs):
                    return False
                a = simp_i(zi(x.ptr) + zi(k)) if not (is_c(x.ptr) and is_c(k)) else x.ptr + k
                regs[i['reg']] = ElemPtr(x.rid, a, et, et, (x.ptr, iadd(x.ptr, x.cap)))
                return
            if isinstance(x, PtrV):
                a = self.cell_get(st, x)
                if isinstance(a, ArrRef):
                    if not self.guard(fr, st, band(ile(0, k), ilt(k, a.n)), 'index out of range', outs):
                        return False
                    regs[i['reg']] = ElemPtr(a.rid, k, et, et, (0, a.n))
                    return
            if isinstance(x, ArrPtr):
                if not self.guard(fr, st, band(ile(0, k), ilt(k, x.n)), 'index out of range', outs):
                    return False
                regs[i['reg']] = ElemPtr(x.rid, plus(x.addr, k), x.elem, x.elem)
                return
            if isinstance(x, View):
                if not self.guard(fr, st, band(ile(0, k), ilt(k, x.len)), 'index out of range', outs):
                    return False
                u, w = self.esize(self.regions[x.rid].elem), self.esize(x.elem)
                if w < u:
                    raise Unsupported('element of a view')
                m = w // u
                regs[i['reg']] = ElemPtr(x.rid, iadd(x.addr, k * m if is_c(k) else simp_i(zi(k) * m)), et, et,
                                         (x.addr, iadd(x.addr, x.len * m if is_c(x.len) else simp_i(zi(x.len) * m))), True)
                return
            raise Unsupported('index of ' + type(x).__name__)
        if op == 'Index':
            x = O('x')
            k = O('i').int()
            if isinstance(x, ArrV):
                if not self.guard(fr, st, band(ile(0, k), ilt(k, x.n)), 'index out of range', outs):
                    return False
                regs[i['reg']] = x.node.read(k)
                return
            raise Unsupported('index of ' + type(x).__name__)
        if op == 'Store':
            p = O('a')
            if isinstance(p, NilV):
                outs.extend(self.throw(fr, st, RtPanic('nil pointer dereference')))
                return False
            self.store(st, p, O('x'))
            return
        if op == 'Alloc':
            obj = self.fresh('o')
            st.cells[obj] = self.zero(i['elem'], st)
            regs[i['reg']] = PtrV(obj, (), i['elem'])
            return
        if op == 'Convert':
            v = O('x')
            t = i['t']
            regs[i['reg']] = self.convert(st, v, t)
            return
        if op == 'ChangeType':
            v = O('x')
            ii = self.intinfo(i['t'])
            if ii and isinstance(v, IV):
                v = v.retag(*ii)
            if isinstance(v, StructV):
                v = StructV(i['t'], v.f)
            regs[i['reg']] = v
            return
        if op == 'ChangeInterface':
            regs[i['reg']] = O('x')
            return
        if op == 'MakeInterface':
            t = i['x'].get('t')
            regs[i['reg']] = IfaceV(t, O('x'))
            return
        if op == 'MakeSlice':
            return self.makeslice(fr, st, i, outs)
        if op == 'SliceToArrayPointer':
            x = O('x')
            d = self.ty(self.ty(i['t'])['elem'])
            if not self.guard(fr, st, ile(d['len'], x.len), 'slice shorter than the array', outs):
                return False
            if x.nil is not False and d['len'] == 0:
                raise Unsupported('pointer to an empty array')
            regs[i['reg']] = ArrPtr(x.rid, x.ptr, d['len'], d['elem'])
            return
        if op == 'Slice':
            return self.slice(fr, st, i, outs)
        if op == 'Extract':
            regs[i['reg']] = O('x').e[i['i']]
            return
        if op == 'TypeAssert':
            x = O('x')
            at = i['at']
            d = self.ty(at)
            if isinstance(x, Opaque):
                raise Unsupported('type assertion on an unknown interface')
            if d['k'] == 'iface':
                good = isinstance(x, IfaceV)
                val = x
            else:
                good = isinstance(x, IfaceV) and self.same_type(x.dyn, at)
                val = x.v if good else None
            if i['ok']:
                regs[i['reg']] = TupleV([val if good else self.snap(st, self.zero(at, st)), BoolV(good)])
                return
            if not good:
                outs.extend(self.throw(fr, st, RtPanic('interface conversion')))
                return False
            regs[i['reg']] = val
            return
        if op == 'MakeClosure':
            regs[i['reg']] = FuncV(i['fn']['n'], [self.operand(fr, st, b) for b in i['b']])
            return
        if op == 'Defer':
            f, args = self.callee(fr, st, i['call'])
            if fr.active:
                raise Unsupported('defer inside a loop')
            fr.defers = fr.defers + ((f, args),)
            return
        raise Unsupported('instruction ' + op)

    def same_type(self, a, b):
        norm = lambda t: t.replace('uint8', 'byte')
        return norm(a) == norm(b)

    def unop(self, fr, st, i, outs):
        o = i['o']
        x = self.operand(fr, st, i['x'])
        if o == '*':
            if isinstance(x, NilV):
                outs.extend(self.throw(fr, st, RtPanic('nil pointer dereference')))
                return False
            v = self.load(st, x, i['t'])
            if isinstance(v, Opaque) and self.ty(i['t'])['k'] == 'struct' and not self.ty(i['t'])['fields']:
                v = StructV(i['t'], ())
            fr.regs[i['reg']] = v
            return
        if o == '!':
            fr.regs[i['reg']] = BoolV(bnot(x.v))
            return
        if o == '-':
            if x.fl:
                raise Unsupported('float negation')
            fr.regs[i['reg']] = self.arith(st, '-', IV(x.w, x.s, 'i', 0), x)
            return
        if o == '^':
            c = x.const()
            if c is not None:
                fr.regs[i['reg']] = IV(x.w, x.s, 'i', -1 - c if x.s else ((1 << x.w) - 1 - c))
            elif x.rep == 'i':
                fr.regs[i['reg']] = IV(x.w, x.s, 'i', -1 - x.v if x.s else ((1 << x.w) - 1 - x.v))
            else:
                fr.regs[i['reg']] = IV(x.w, x.s, 'b', ~x.v)
            return
        raise Unsupported('unary ' + o)

    def binop(self, fr, st, i, outs):
        o = i['o']
        x = self.operand(fr, st, i['x'])
        y = self.operand(fr, st, i['y'])
        if o in ('==', '!=', '<', '<=', '>', '>='):
            fr.regs[i['reg']] = BoolV(self.compare(st, o, x, y))
            return
        if isinstance(x, StrV):
            if o == '+':
                fr.regs[i['reg']] = StrV(x.parts + y.parts)
                return
            raise Unsupported('string ' + o)
        if isinstance(x, BoolV):
            r = {'&': lambda: band(x.v, y.v), '|': lambda: bor(x.v, y.v)}.get(o)
            if r is None:
                raise Unsupported('bool ' + o)
            fr.regs[i['reg']] = BoolV(r())
            return
        if isinstance(x, AddrV) and isinstance(y, IV) and o in ('+', '-'):
            d = y.int()
            fr.regs[i['reg']] = AddrV(x.p, (iadd if o == '+' else isub)(x.off, d))
            return
        if isinstance(y, AddrV) and isinstance(x, IV) and o == '+':
            fr.regs[i['reg']] = AddrV(y.p, iadd(y.off, x.int()))
            return
        if not isinstance(x, IV):
            raise Unsupported('binary %s on %s' % (o, type(x).__name__))
        if o in ('<<', '>>'):
            if y.s and not self.guard(fr, st, ile(0, y.int()), 'negative shift amount', outs):
                return False
            fr.regs[i['reg']] = self.shift(st, o, x, y)
            return
        if o in ('&', '|', '^', '&^'):
            fr.regs[i['reg']] = self.bitop(st, o, x, y)
            return
        if o in ('/', '%'):
            nz = bnot(veq(y, IV(y.w, y.s, 'i', 0)))
            if not self.guard(fr, st, simp_b(nz), 'integer divide by zero', outs):
                return False
        fr.regs[i['reg']] = self.arith(st, o, x, y)

    def makeslice(self, fr, st, i, outs):
        ln = self.operand(fr, st, i['len']).int()
        cp = self.operand(fr, st, i['cap']).int()
        el = self.ty(i['t'])['elem']
        lim = MAXADDR // max(1, self.esize(el))
        if not self.guard(fr, st, simp_b(band(ile(0, ln), ile(ln, cp), ile(cp, lim))),
                          'makeslice: len out of range', outs):
            return False
        rid = self.new_region(el, 'fresh', st, zero=True)
        fr.regs[i['reg']] = SliceV(el, rid, 0, ln, cp, False)

    def slice(self, fr, st, i, outs):
        x = self.operand(fr, st, i['x'])
        g = lambda k: None if i[k] is None else self.operand(fr, st, i[k]).int()
        lo, hi, mx = g('lo'), g('hi'), g('max')
        if lo is None:
            lo = 0
        if isinstance(x, ArrPtr):
            x = SliceV(x.elem, x.rid, x.addr, x.n, x.n, False)
        if isinstance(x, PtrV):
            a = self.cell_get(st, x)
            if not isinstance(a, ArrRef):
                raise Unsupported('slicing ' + type(a).__name__)
            if hi is None:
                hi = a.n
            top = a.n
            m2 = top if mx is None else mx
            ok = band(ile(0, lo), ile(lo, hi), ile(hi, m2), ile(m2, top))
            if not self.guard(fr, st, simp_b(ok), 'slice bounds out of range', outs):
                return False
            sub = lambda p, q: p - q if is_c(p) and is_c(q) else simp_i(zi(p) - zi(q))
            fr.regs[i['reg']] = SliceV(a.elem, a.rid, lo, sub(hi, lo), sub(m2, lo), False)
            return
        if isinstance(x, SliceV):
            if hi is None:
                hi = x.len
            m2 = x.cap if mx is None else mx
            ok = band(ile(0, lo), ile(lo, hi), ile(hi, m2), True if mx is None else ile(m2, x.cap))
            if not self.guard(fr, st, simp_b(ok), 'slice bounds out of range', outs):
                return False
            sub = lambda p, q: p - q if is_c(p) and is_c(q) else simp_i(zi(p) - zi(q))
            add = lambda p, q: p + q if is_c(p) and is_c(q) else simp_i(zi(p) + zi(q))
            fr.regs[i['reg']] = SliceV(x.elem, x.rid, add(x.ptr, lo), sub(hi, lo), sub(m2, lo), x.nil)
            return
        raise Unsupported('slicing ' + type(x).__name__)

    # ------------------------------------------------------------ calls
    def callee(self, fr, st, c):
        args = [self.operand(fr, st, a) for a in c['args']]
        if 'invoke' in c:
            r = self.operand(fr, st, c['recv'])
            if not isinstance(r, IfaceV):
                raise Unsupported('dynamic call on an unknown value')
            if r.dyn.startswith('?'):
                return FuncV('user:' + c['invoke']), args
            m = self.pkg.methods.get(r.dyn, {}).get(c['invoke'])
            if m is None:
                raise Unsupported('dynamic method %s.%s' % (r.dyn, c['invoke']))
            return FuncV(m), [r.v] + args
        f = self.operand(fr, st, c['fn'])
        if not isinstance(f, FuncV):
            raise Unsupported('call of an unknown function value')
        return f, args

    def call(self, fr, st, c, outs):
        if 'invoke' in c:
            r = self.operand(fr, st, c['recv'])
            if isinstance(r, NilV):
                outs.extend(self.throw(fr, st, RtPanic('nil pointer dereference')))
                return None
        f, args = self.callee(fr, st, c)
        return self.call_value(fr, st, f, args)

    def call_value(self, fr, st, f, args, deferred=False):
        n = f.name
        if n.startswith('builtin:'):
            if n == 'builtin:recover' and deferred:
                raise Unsupported('deferred recover')
            return self.builtin(fr, st, n[8:], args)
        if n.startswith('user:'):
            return self.user_method(st, n[5:], args)
        r = self.intrinsic(fr, st, n, args)
        if r is not None:
            return r
        fn = self.pkg.funcs.get(n)
        if fn is None or fn.blocks is None:
            raise Unsupported('call to ' + n)
        if self.apply is not None and not f.binds and not deferred:
            r = self.apply(self, fn, args, st)
            if r is not None:
                return r
        return self.run(fn, args, st, fr.depth + 1, f.binds, deferred)

    def user_method(self, st, name, args):
        """a method of a type of the caller's own: it may panic, fill the slice
        it is given, and return anything (assumed: it leaves the buffer alone)"""
        m = {'Uint16': 16, 'Uint32': 32, 'Uint64': 64, 'PutUint16': 0, 'PutUint32': 0, 'PutUint64': 0}
        if name not in m:
            raise Unsupported('dynamic method ' + name)
        outs = [Outcome('panic', st.fork(), Opaque('panic of the caller\'s own method'))]
        if m[name]:
            return outs + [Outcome('ret', st, IV(m[name], False, 'b', z3.BitVec(self.fresh('u'), m[name])))]
        d = args[0]
        if not isinstance(d, SliceV):
            raise Unsupported('dynamic method ' + name)
        hv = self.base_reader(self.fresh('hv'), d.elem)
        self.note_mem_write(st, d.rid)
        st.mem[d.rid] = MComp(st.mem[d.rid], in_range(d.ptr, d.len, lambda k: hv(iadd(d.ptr, k))))
        return outs + [Outcome('ret', st, None)]

    def lockkey(self, p):
        if not isinstance(p, PtrV):
            raise Unsupported('lock of unknown object')
        return p.obj

    def mutex(self, st, o, op):
        held = st.locks.get(o, False)        # False, True, or 'R' for a read lock
        if op in ('TryLock', 'TryRLock'):    # it may fail whenever another goroutine holds the lock
            if held:
                return [Outcome('ret', st, BoolV(False))]
            s2 = st.fork()
            self.take(s2, o, True if op == 'TryLock' else 'R')
            return [Outcome('ret', s2, BoolV(True)), Outcome('ret', st, BoolV(False))]
        if op in ('Lock', 'RLock'):
            if held:
                st.bad = st.bad + ('lock acquired while already held (deadlock)',)
            self.take(st, o, True if op == 'Lock' else 'R')
            return [Outcome('ret', st, None)]
        if op in ('Unlock', 'RUnlock'):
            if held != (True if op == 'Unlock' else 'R'):
                st.bad = st.bad + ('unlock of an unlocked mutex',)
            elif self.rely is not None and o == self.lock_obj:
                self.rely.release(st)
            st.locks[o] = False
            return [Outcome('ret', st, None)]
        raise Unsupported('sync mutex method ' + op)

    def take(self, st, o, how):
        st.locks[o] = how
        if self.rely is not None and o == self.lock_obj:
            self.rely.acquire(st)

    def intrinsic(self, fr, st, n, args):
        m = re.fullmatch(r'\(\*sync\.(?:RW)?Mutex\)\.(\w+)', n)
        if m:
            return self.mutex(st, self.lockkey(args[0]), m.group(1))
        if n in ('math.Float32bits', 'math.Float64bits'):
            return [Outcome('ret', st, args[0].retag(args[0].w, False, False))]
        if n in ('math.Float32frombits', 'math.Float64frombits'):
            return [Outcome('ret', st, args[0].retag(args[0].w, False, True))]
        if n == 'bytes.Repeat':
            return self.repeat(fr, st, args[0], args[1].int())
        if n == 'bytes.Join' and is_c(args[1].len) and args[1].len == 0 and self.spec is not None:
            v = self.spec.join(self, st, args[0])
            return None if v is None else [Outcome('ret', st, v)]
        if n == 'fmt.Sprintf':
            return [Outcome('ret', st, self.sprintf(st, args))]
        if n.startswith('math/bits.ReverseBytes') and args and isinstance(args[0], IV):
            v = args[0].bv()
            w = args[0].w
            parts = [z3.Extract(8 * k + 7, 8 * k, v) for k in range(w // 8)]
            return [Outcome('ret', st, IV(w, False, 'b', z3.Concat(*parts)))]
        if n.endswith('.init') and n.split('.')[0] != self.pkg.path and not n.startswith(self.pkg.path + '.'):
            return [Outcome('ret', st, None)]
        return None

    def repeat(self, fr, st, b, n):
        """bytes.Repeat (model of a dependency)"""
        if not is_c(b.len) or b.len < 1:
            return None
        outs = []
        ok = simp_b(band(ile(0, n), ile(zi(n) * b.len, MAXADDR)))
        if ok is not True and not self.optimistic and self.pr.sat(st.pc, bnot(ok)):
            s2 = st.fork()
            s2.assume(bnot(ok))
            outs.append(Outcome('panic', s2, RtPanic('bytes.Repeat: count out of range')))
            if not self.pr.sat(st.pc, ok):
                return outs
            st.assume(ok)
        src, c = st.mem[b.rid], b.len
        node = MBase(lambda x: src.read(iadd(b.ptr, x % c if is_c(x) else (x % c if c > 1 else 0))))
        rid = self.new_region(b.elem, 'fresh', st, node=node)
        ln = simp_i(zi(n) * c)
        cp = z3.Int(self.fresh('cap'))
        st.assume(z3.And(cp >= zi(ln), cp <= MAXADDR))
        return outs + [Outcome('ret', st, SliceV(b.elem, rid, 0, ln, cp, False))]

    def sprintf(self, st, args):
        f = args[0].lit()
        va = args[1]
        if f is None or not isinstance(va, SliceV) or not is_c(va.len):
            raise Unsupported('Sprintf')
        vs = [st.mem[va.rid].read(va.ptr + k if is_c(va.ptr) else va.ptr) for k in range(va.len)]
        out, k, j = [], 0, 0
        while j < len(f):
            if f[j] == '%':
                if f[j + 1] == '%':
                    out.append('%')
                elif f[j + 1] in 'sv':
                    v = vs[k]
                    k += 1
                    if not (isinstance(v, IfaceV) and isinstance(v.v, StrV) and v.dyn == 'string'):
                        raise Unsupported('Sprintf argument')
                    out.extend(v.v.parts)
                else:
                    raise Unsupported('Sprintf verb')
                j += 2
            else:
                out.append(f[j])
                j += 1
        if k != len(vs):
            raise Unsupported('Sprintf argument count')
        return StrV(out)

    def builtin(self, fr, st, n, args):
        ret = lambda v: [Outcome('ret', st, v)]
        if n in ('len', 'cap'):
            x = args[0]
            if isinstance(x, SliceV):
                return ret(IV(64, True, 'i', x.len if n == 'len' else x.cap))
            if isinstance(x, View):
                return ret(IV(64, True, 'i', x.len))
            if isinstance(x, StrV) and x.lit() is not None:
                return ret(IV(64, True, 'i', len(x.lit().encode())))
            if isinstance(x, (ArrV, ArrRef, ArrPtr)):
                return ret(IV(64, True, 'i', x.n))
            raise Unsupported('len of ' + type(x).__name__)
        if n == 'Slice':
            return self.unsafe_slice(fr, st, *args)
        if n == 'SliceData' and isinstance(args[0], SliceV):
            x = args[0]
            return ret(ElemPtr(x.rid, x.ptr, x.elem, x.elem, (x.ptr, iadd(x.ptr, x.cap)), True))
        if n == 'Add':
            return ret(self.move(st, args[0], args[1].int()))
        if n == 'copy' and (isinstance(args[0], View) or isinstance(args[1], View)):
            return self.view_copy(st, *args)
        if n == 'copy':
            return self.b_copy(st, args[0], args[1])
        if n == 'append':
            return self.b_append(st, args[0], args[1])
        if n in ('min', 'max'):
            r = args[0]
            for a in args[1:]:
                c = self.compare(st, '<', a, r)
                r = vite(c if n == 'min' else bnot(c), a, r)
            return ret(r)
        if n == 'clear' and isinstance(args[0], SliceV):
            s = args[0]
            z = self.zero(s.elem, st)
            self.note_mem_write(st, s.rid)
            st.mem[s.rid] = MComp(st.mem[s.rid], in_range(s.ptr, s.len, lambda k: z), ('range', s.ptr, s.len))
            return ret(None)
        if n == 'recover':
            return ret(self.b_recover(fr, st))
        if n == 'ssa:wrapnilchk':
            return ret(args[0])
        if n in ('print', 'println'):
            return ret(None)
        raise Unsupported('builtin ' + n)

    def b_copy(self, st, d, s):
        if not isinstance(s, SliceV) or not isinstance(d, SliceV):
            raise Unsupported('copy of ' + type(s).__name__)
        if self.intinfo(self.regions[s.rid].elem) != self.intinfo(self.regions[d.rid].elem):
            return self.view_copy(st, d, s)
        n = self.imin(st, d.len, s.len)
        src = st.mem[s.rid]
        if not (is_c(n) and n == 0):
            if not (is_c(n) or self.optimistic) and not self.pr.sat(st.pc, zi(n) > 0):
                pass
            else:
                self.note_mem_write(st, d.rid)
                sp = s.ptr
                st.mem[d.rid] = MComp(st.mem[d.rid],
                                      in_range(d.ptr, n, lambda k: src.read(iadd(sp, k))), ('range', d.ptr, n))
        return [Outcome('ret', st, IV(64, True, 'i', n))]

    def imin(self, st, a, b):
        if is_c(a) and is_c(b):
            return min(a, b)
        if not self.optimistic:
            if self.pr.prove(st.pc, zi(a) <= zi(b)):
                return a
            if self.pr.prove(st.pc, zi(b) <= zi(a)):
                return b
        elif (is_c(a) and a <= 16) or (is_c(b) and b <= 16):   # a guess, like all of an optimistic run
            return a if is_c(a) and a <= 16 else b
        return z3.If(zi(a) <= zi(b), zi(a), zi(b))

    def b_append(self, st, s, e):
        if not isinstance(e, SliceV) or not isinstance(s, SliceV):
            raise Unsupported('append of ' + type(e).__name__)
        if self.intinfo(self.regions[s.rid].elem) != self.intinfo(self.regions[e.rid].elem):
            raise Unsupported('append of reinterpreted memory')
        n = e.len
        src = st.mem[e.rid]
        newlen = iadd(s.len, n)
        fits = simp_b(ile(newlen, s.cap))
        outs = []
        ep = e.ptr
        for inplace in (True, False):
            c = fits if inplace else bnot(fits)
            if c is False or (c is not True and not self.feasible(st, c)):
                continue
            s2 = st.fork()
            if c is not True:
                s2.assume(c)
            if inplace:
                if not (is_c(n) and n == 0):
                    at = iadd(s.ptr, s.len)
                    if self.optimistic or self.pr.sat(s2.pc, ilt(0, n)):
                        self.note_mem_write(s2, s.rid)
                        s2.mem[s.rid] = MComp(s2.mem[s.rid],
                                              in_range(at, n, lambda k: src.read(iadd(ep, k))), ('range', at, n))
                outs.append(Outcome('ret', s2, SliceV(s.elem, s.rid, s.ptr, newlen, s.cap, s.nil)))
            else:
                old = s2.mem[s.rid]
                sp = s.ptr
                z = self.zero(s.elem, s2)
                base = MBase(lambda x: z)
                node = MComp(base, in_range(0, s.len, lambda k: old.read(iadd(sp, k))))
                node = MComp(node, in_range(s.len, n, lambda k: src.read(iadd(ep, k))))
                rid = self.new_region(s.elem, 'fresh', s2, node=node)
                cp = z3.Int(self.fresh('cap'))
                s2.assume(z3.And(cp >= zi(newlen), cp <= MAXADDR))
                # assumed: the allocation succeeds, so the new length is an addressable one
                s2.assume(zi(newlen) <= MAXADDR // max(1, self.esize(s.elem)))
                outs.append(Outcome('ret', s2, SliceV(s.elem, rid, 0, newlen, cp, False)))
        return outs


def iadd(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return simp_i(zi(a) + zi(b))


def isub(a, b):
    if is_c(a) and is_c(b):
        return a - b
    if is_c(b) and b == 0:
        return a
    return simp_i(zi(a) - zi(b))


def in_range(lo, n, val):
    """comprehension: [lo, lo+n) maps index k to val(k)"""
    def f(x):
        k = isub(x, lo)
        return band(ile(0, k), ilt(k, n)), (lambda: val(k))
    return f
