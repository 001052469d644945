"""Values, memory and the arithmetic of Go integers over z3 terms.

Integers carry one of two exact representations:
  'i'  a mathematical integer (a Python int or a z3 Int term) lying in the
       type's range - every operation either proves from the path condition
       that no overflow happens or emits the two's-complement wrap;
  'b'  a z3 bit-vector of the type's width.
"""
import time
import z3


class Unsupported(Exception):
    pass


MAXADDR = 1 << 47


def is_c(v):
    return isinstance(v, int)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def bor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def bimp(a, b):
    return bor(bnot(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def beq(a, b):
    """equality of booleans"""
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    return a == b


def simp_i(x):
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    return x


def simp_b(x):
    if isinstance(x, bool):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def iite(c, a, b):
    """ite over Int terms"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return a
    return z3.If(c, zi(a), zi(b))


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return zi(a) == zi(b)


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return zi(a) < zi(b)


def ile(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return zi(a) <= zi(b)


def bvc(v, w):
    return z3.BitVecVal(v & ((1 << w) - 1), w)


def bv_const(x):
    """python value of a constant bit-vector, else None"""
    if z3.is_bv_value(x):
        return x.as_long()
    return None


def bvite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class IV(V):
    """integer (also the bit pattern of a float when fl is set)"""
    __slots__ = ('w', 's', 'rep', 'v', 'fl')

    def __init__(self, w, s, rep, v, fl=False):
        self.w, self.s, self.rep, self.v, self.fl = w, s, rep, v, fl

    def lo(self):
        return -(1 << (self.w - 1)) if self.s else 0

    def hi(self):
        return (1 << (self.w - 1)) - 1 if self.s else (1 << self.w) - 1

    def const(self):
        if self.rep == 'i':
            return self.v if isinstance(self.v, int) else None
        c = bv_const(self.v)
        if c is None:
            return None
        if self.s and c >= 1 << (self.w - 1):
            c -= 1 << self.w
        return c

    def int(self):
        if self.rep == 'i':
            return self.v
        c = self.const()
        if c is not None:
            return c
        return z3.BV2Int(self.v, self.s)

    def bv(self):
        if self.rep == 'b':
            return self.v
        if isinstance(self.v, int):
            return bvc(self.v, self.w)
        return z3.Int2BV(self.v, self.w)

    def retag(self, w, s, fl):
        """same bits, another type of the same width"""
        if w != self.w:
            raise Unsupported('reinterpreting %d bits as %d' % (self.w, w))
        if self.rep == 'i' and s == self.s and fl == self.fl:
            return self
        if self.rep == 'i' and isinstance(self.v, int):
            v = self.v & ((1 << w) - 1)
            if s and v >= 1 << (w - 1):
                v -= 1 << w
            return IV(w, s, 'i', v, fl)
        return IV(w, s, 'b', self.bv(), fl)

    def __repr__(self):
        return 'IV(%s%d %s)' % ('i' if self.s else 'u', self.w, self.v)


class BoolV(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class StrV(V):
    """string: a tuple of literal pieces and opaque atoms"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if p == '':
                continue
            if out and isinstance(out[-1], str) and isinstance(p, str):
                out[-1] += p
            else:
                out.append(p)
        self.parts = tuple(out)

    def lit(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None


class SliceV(V):
    __slots__ = ('elem', 'rid', 'ptr', 'len', 'cap', 'nil')

    def __init__(self, elem, rid, ptr, ln, cp, nil=False):
        self.elem, self.rid, self.ptr, self.len, self.cap, self.nil = elem, rid, ptr, ln, cp, nil

    def __repr__(self):
        return 'Slice(%s r%s p=%s l=%s c=%s)' % (self.elem, self.rid, self.ptr, self.len, self.cap)


class PtrV(V):
    """pointer to a cell: object id and field path; t is the pointee type"""
    __slots__ = ('obj', 'path', 't')

    def __init__(self, obj, path, t):
        self.obj, self.path, self.t = obj, path, t


class ElemPtr(V):
    """pointer to an element; t: what it is said to point to; span: the addresses
    [lo, hi) of the slice or array it came from"""
    __slots__ = ('rid', 'addr', 't', 'elem', 'span', 'raw')

    def __init__(self, rid, addr, t, elem, span=None, raw=False):
        self.rid, self.addr, self.t, self.elem, self.span, self.raw = rid, addr, t, elem, span, raw


class View(V):
    """a slice of another element type over the memory of a region (unsafe.Slice):
    addr is the region's address of its first element"""
    __slots__ = ('rid', 'addr', 'elem', 'len')

    def __init__(self, rid, addr, elem, n):
        self.rid, self.addr, self.elem, self.len = rid, addr, elem, n


class AddrV(V):
    """uintptr of a pointer, moved by off bytes"""
    __slots__ = ('p', 'off')

    def __init__(self, p, off):
        self.p, self.off = p, off


class NilV(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class StructV(V):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, tuple(f)


class TupleV(V):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


class IfaceV(V):
    __slots__ = ('dyn', 'v')

    def __init__(self, dyn, v):
        self.dyn, self.v = dyn, v


class FuncV(V):
    __slots__ = ('name', 'binds')

    def __init__(self, name, binds=()):
        self.name, self.binds = name, tuple(binds)


class ArrRef(V):
    """array object: its elements live in a region of its own"""
    __slots__ = ('rid', 'n', 'elem')

    def __init__(self, rid, n, elem):
        self.rid, self.n, self.elem = rid, n, elem


class ArrPtr(V):
    """pointer to an array that lies inside the memory of a slice"""
    __slots__ = ('rid', 'addr', 'n', 'elem')

    def __init__(self, rid, addr, n, elem):
        self.rid, self.addr, self.n, self.elem = rid, addr, n, elem


class ArrV(V):
    """array value: a snapshot of memory"""
    __slots__ = ('node', 'n', 'elem')

    def __init__(self, node, n, elem):
        self.node, self.n, self.elem = node, n, elem


class Opaque(V):
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what


class RtPanic(V):
    """a Go run-time panic"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'runtime error: ' + self.what


def veq(a, b):
    """equality of two values of the same type, as a formula"""
    if a is b:
        return True
    if isinstance(a, IV) and isinstance(b, IV):
        if a.w != b.w:
            raise Unsupported('comparing widths')
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return (ca - cb) % (1 << a.w) == 0
        if a.rep == 'i' and b.rep == 'i':
            return zi(a.v) == zi(b.v)
        if a.rep == 'b' or b.rep == 'b':
            if a.rep == 'i' and ca is None or b.rep == 'i' and cb is None:
                return zi(a.int()) == zi(b.int())
            x, y = a.bv(), b.bv()
            if x.eq(y):
                return True
            return x == y
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return beq(a.v, b.v)
    if isinstance(a, StrV) and isinstance(b, StrV):
        if a.parts == b.parts:
            return True
        if a.lit() is not None and b.lit() is not None:
            return False
        raise Unsupported('string comparison')
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        if a.rid != b.rid:
            return band(beq(a.nil, True), beq(b.nil, True))
        return band(ieq(a.ptr, b.ptr), ieq(a.len, b.len), ieq(a.cap, b.cap), beq(a.nil, b.nil))
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        return a.obj == b.obj and a.path == b.path
    if isinstance(a, ElemPtr) and isinstance(b, ElemPtr):
        return a.rid == b.rid and ieq(a.addr, b.addr)
    if isinstance(a, NilV) and isinstance(b, NilV):
        return True
    if isinstance(a, NilV) or isinstance(b, NilV):
        o = b if isinstance(a, NilV) else a
        if isinstance(o, SliceV):
            return o.nil
        return False
    if isinstance(a, StructV) and isinstance(b, StructV):
        return band(*[veq(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, IfaceV) and isinstance(b, IfaceV):
        if a.dyn != b.dyn:
            return False
        return veq(a.v, b.v)
    if isinstance(a, ArrRef) and isinstance(b, ArrRef):
        return a.rid == b.rid
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a.name == b.name and len(a.binds) == len(b.binds) == 0
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.what == b.what
    if type(a) is not type(b):
        return False
    raise Unsupported('equality of %s' % type(a).__name__)


def vsame(a, b):
    """syntactic identity (for detecting what a loop body modifies)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        e = veq(a, b)
    except Unsupported:
        return False
    return e is True or (not isinstance(e, bool) and simp_b(e) is True)


def vite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, IV) and isinstance(b, IV):
        if a.rep == 'i' and b.rep == 'i':
            return IV(a.w, a.s, 'i', iite(c, a.v, b.v), a.fl)
        return IV(a.w, a.s, 'b', bvite(c, a.bv(), b.bv()), a.fl)
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return BoolV(z3.If(c, zb(a.v), zb(b.v)))
    if isinstance(a, SliceV) and isinstance(b, SliceV) and a.rid == b.rid:
        return SliceV(a.elem, a.rid, iite(c, a.ptr, b.ptr), iite(c, a.len, b.len), iite(c, a.cap, b.cap),
                      a.nil if a.nil is b.nil or (isinstance(a.nil, bool) and a.nil == b.nil)
                      else z3.If(c, zb(a.nil), zb(b.nil)))
    if isinstance(a, StructV) and isinstance(b, StructV):
        return StructV(a.t, [vite(c, x, y) for x, y in zip(a.f, b.f)])
    if vsame(a, b):
        return a
    raise Unsupported('ite over %s' % type(a).__name__)


# ---------------------------------------------------------------- memory
class Node:
    __slots__ = ('cache',)

    def read(self, x):
        """value of the element at address x (an int or an Int term)"""
        if isinstance(x, int):
            k = x
        else:
            k = ('t', x.get_id())
        c = self.cache.get(k)
        if c is not None:
            return c[1]
        v = self._read(x)
        self.cache[k] = (x, v)
        return v


class MBase(Node):
    __slots__ = ('f',)

    def __init__(self, f):
        self.cache = {}
        self.f = f

    def _read(self, x):
        return self.f(x)


class MStore(Node):
    __slots__ = ('parent', 'addr', 'val')

    def __init__(self, parent, addr, val):
        self.cache = {}
        self.parent, self.addr, self.val = parent, addr, val

    def _read(self, x):
        d = simp_i(zi(x) - zi(self.addr)) if not (is_c(x) and is_c(self.addr)) else x - self.addr
        if is_c(d):
            return self.val if d == 0 else self.parent.read(x)
        return vite(zi(x) == zi(self.addr), self.val, self.parent.read(x))


class MComp(Node):
    """f(x) -> (condition, value or thunk)"""
    __slots__ = ('parent', 'f', 'note')

    def __init__(self, parent, f, note=None):
        self.cache = {}
        self.parent, self.f, self.note = parent, f, note

    def _read(self, x):
        c, v = self.f(x)
        c = simp_b(c) if not isinstance(c, bool) else c
        if c is False:
            return self.parent.read(x)
        v = v() if callable(v) else v
        if c is True:
            return v
        return vite(c, v, self.parent.read(x))


def mod8_term(fs):
    """the position whose residue modulo eight a goal about bits depends on"""
    best, seen, work = {}, set(), list(fs)
    while work:
        x = work.pop()
        if isinstance(x, bool) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == 8 \
                    and not z3.is_int_value(x.arg(0)):
                a = x.arg(0)
                best[a.get_id()] = (best.get(a.get_id(), (0, a))[0] + 1, a)
            work.extend(x.children())
    return max(best.values(), key=lambda p: (p[0], -p[1].get_id()))[1] if best else None


def int_consts(e):
    """the integer constants of a term, in a fixed order"""
    seen, out, work = set(), {}, [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        work.extend(x.children())
    return [out[n] for n in sorted(out)]


# ---------------------------------------------------------------- solver
def limits(s, ms):
    """a limit on the solver's own steps, about ms on an idle core, so that the
    answer does not depend on the load of the machine; the clock is a backstop"""
    s.set('rlimit', 2500 * ms)
    s.set('timeout', 4 * ms)


class Prover:
    """Path feasibility, quick side conditions (incremental) and the final
    obligations (one fresh solver each)."""
    dual = 0        # thorough tier: how many refutations per function to keep for a second solver

    def __init__(self, quick_ms=3000, full_ms=20000):
        self.s = z3.SolverFor('ALL') if False else z3.Solver()
        limits(self.s, quick_ms)
        self.stack = []
        self.full_ms = full_ms
        self.n_quick = 0
        self.cache = {}
        self.unknowns = 0
        self.secs = 0.0
        self.n_full = 0
        self.kept, self.n_unsat = [], 0

    def keep(self, fs):
        """a sample of the contradictions found, evenly spread, as SMT-LIB text"""
        if not self.dual:
            return
        self.n_unsat += 1
        if len(self.kept) >= self.dual:
            self.kept = self.kept[::2]
        step = 1
        while self.n_unsat > step * self.dual:
            step *= 2
        if self.n_unsat % step == 0:
            s = z3.Solver()
            for f in fs:
                s.add(zb(f))
            self.kept.append(s.to_smt2())

    def _sync(self, pc):
        i = 0
        n = min(len(pc), len(self.stack))
        while i < n and self.stack[i] is pc[i]:
            i += 1
        while len(self.stack) > i:
            self.s.pop()
            self.stack.pop()
        for f in pc[i:]:
            self.s.push()
            self.s.add(f)
            self.stack.append(f)

    def sat(self, pc, *extra):
        """False only when pc and extra are contradictory"""
        ex = []
        for e in extra:
            if isinstance(e, bool):
                if not e:
                    return False
                continue
            ex.append(e)
        key = (tuple(f.get_id() for f in pc), tuple(e.get_id() for e in ex))
        c = self.cache.get(key)
        if c is not None:
            return c[0]
        self.n_quick += 1
        t0 = time.time()
        self._sync(pc)
        self.s.push()
        for e in ex:
            self.s.add(e)
        r = self.s.check()
        self.s.pop()
        self.secs += time.time() - t0
        if r == z3.unknown:
            self.unknowns += 1
        res = r != z3.unsat
        if not res:
            self.keep(list(pc) + ex)
        self.cache[key] = (res, list(pc), ex)   # keep the terms alive: ids are reused otherwise
        return res

    def prove(self, pc, goal):
        if isinstance(goal, bool):
            if goal:
                return True
            return not self.sat(pc)
        return not self.sat(pc, bnot(goal))

    def prove_full(self, pc, goal):
        """quick incremental attempt, then a fresh solver with the long limit"""
        if isinstance(goal, bool):
            return goal or not self.sat(pc)
        if not self.sat(pc, bnot(goal)):
            return True
        if z3.is_and(goal) and goal.num_args() >= 8:
            # a wrong guess shows at a single bit, at little cost
            for g in (goal.arg(0), goal.arg(goal.num_args() - 1)):
                if self.refute(pc, g, self.full_ms // 32)[0] == 'refuted':
                    return False
            r, _ = self.refute(pc, goal, self.full_ms // 16)
            if r == 'unknown':
                r = self.by_cases(pc, goal)
            if r != 'unknown':
                return r == 'proved'
            return all(self.prove_full(pc, g) for g in goal.children())
        r, _ = self.refute(pc, goal, self.full_ms // 2)
        if r == 'unknown':
            r = self.by_cases(pc, goal)
        if r != 'unknown':
            return r == 'proved'
        return self.refute(pc, goal, 2 * self.full_ms)[0] == 'proved'

    def by_cases(self, pc, goal):
        """by the residue of the bit position and the values of small counts"""
        t = mod8_term([goal])
        subs = [[]]
        if t is not None:
            t = z3.simplify(t)
            for v in int_consts(t):
                rest = z3.simplify(t - v)
                if v.decl().name() not in {c.decl().name() for c in int_consts(rest)}:
                    q = z3.Int(v.decl().name() + '/8')
                    subs = [[(v, 8 * q + k - rest)] for k in range(8)]
                    break
            else:
                t = None
        small = [c for c in int_consts(goal) if not (subs[0] and c.eq(subs[0][0][0])) and not self.sat(pc, z3.Not(z3.And(c >= 0, c <= 8)))]
        for c in small[:2]:
            subs = [s + [(c, z3.IntVal(m))] for s in subs for m in range(9)]
        if len(subs) == 1:
            return 'unknown'
        for s in subs:
            # the position may be given in terms of a small count
            s = [(v, z3.substitute(e, *s[1:]) if k == 0 and len(s) > 1 else e) for k, (v, e) in enumerate(s)]
            pcs = [z3.simplify(z3.substitute(f, *s)) for f in pc]
            if any(z3.is_false(f) for f in pcs):
                continue
            r, _ = self.refute(pcs, z3.simplify(z3.substitute(goal, *s)), self.full_ms // 4)
            if r != 'proved':
                return r
        return 'proved'

    def refute(self, pc, goal, ms=None, want_model=False):
        """fresh solver: ('proved'|'refuted'|'unknown', model)"""
        s = z3.Solver()
        limits(s, ms or self.full_ms)
        for f in pc:
            s.add(f)
        s.add(zb(bnot(goal)))
        t0 = time.time()
        r = s.check()
        self.secs += time.time() - t0
        self.n_full += 1
        if r == z3.unsat:
            self.keep(list(pc) + [bnot(goal)])
            return 'proved', None
        if r == z3.sat:
            return 'refuted', s.model()
        self.unknowns += 1
        return 'unknown', None
