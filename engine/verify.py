"""Verifies one function of the real code against its contract: sets up the
arbitrary pre-state, runs the symbolic executor, and turns every outcome into
named obligations that z3 has to discharge."""
import ast, time
import z3
from vals import *
from sym import *
import sym, loops
from spec import *

QUICK_MS, FULL_MS = 1500, 8000


class Obl:
    __slots__ = ('kind', 'name', 'status', 'detail', 'case')

    def __init__(self, kind, name, status, detail='', case=None):
        self.kind, self.name, self.status, self.detail, self.case = kind, name, status, detail, case

    def dict(self):
        return {'kind': self.kind, 'name': self.name, 'status': self.status, 'detail': self.detail, 'case': self.case}


class Result:
    def __init__(self, cid):
        self.cid = cid
        self.obls = []
        self.unsupported = None
        self.time = 0.0
        self.queries = 0
        self.dual = []      # sample of contradictions for a second solver
        self.unsat = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.inlined, self.applied, self.loops = [], {}, []
        self.paths = 0
        self.cover = False
        self.vacuous = False
        self.trivial = 0
        self.loc = ''


# ---------------------------------------------------------------- globals
def global_facts(pkg):
    """values of the package's variables after initialisation, and which of them
    some function may change afterwards"""
    if hasattr(pkg, '_gf'):
        return pkg._gf
    mutable = {}             # variable -> functions that may change it
    for f in pkg.funcs.values():
        if not f.target or f.blocks is None:
            continue
        ini = f.short == 'init' or f.short.startswith('init#') or f.short.startswith('init$')
        for b in f.blocks:
            for i in b['instrs']:
                if i['op'] == 'UnOp' and i.get('o') == '*':
                    continue
                for g in globals_in(i):
                    if place_use(pkg, f, i, lambda x: g in globals_in(x), ini, set()):
                        continue     # only loads (and, in initialisation, stores)
                    mutable.setdefault(g, set()).add(f.name)
    init = {}
    f = pkg.funcs.get(pkg.path + '.init')
    err = None
    if f is not None and f.blocks is not None:
        try:
            ctx = Ctx(pkg, Prover(QUICK_MS, FULL_MS))
            st = State()
            ctx.mutable_globals = set()
            for n, g in pkg.globals.items():
                t = pkg.ty(g['t'])['elem']
                st.cells['global:' + n] = ctx.zero(t, st)
            outs = ctx.run(f, [], st)
            outs = [o for o in outs if o.kind == 'ret']
            if len(outs) != 1:
                raise Unsupported('package initialisation has %d outcomes' % len(outs))
            s = outs[0].st
            for n in pkg.globals:
                v = s.cells['global:' + n]
                regs = {}
                collect_regions(v, s, ctx, regs)
                init[n] = (v, regs)
        except Unsupported as e:
            err = str(e)
    pkg._gf = (init, mutable, err)
    return pkg._gf


def collect_regions(v, s, ctx, acc):
    if isinstance(v, (SliceV, ArrRef)) and v.rid in s.mem and v.rid not in acc:
        acc[v.rid] = (ctx.regions[v.rid].elem, s.mem[v.rid])
    if isinstance(v, StructV):
        for f in v.f:
            collect_regions(f, s, ctx, acc)


def globals_in(i):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'global':
                out.append(x['n'])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(i)
    return out


def used_as_place(pkg, f, reg, stores, seen=None):
    """the address in reg is only loaded from (and stored to, if allowed),
    followed through phis, local variables, calls and results in the package"""
    seen = set() if seen is None else seen
    if (f.name, reg) in seen:
        return True
    seen.add((f.name, reg))
    for b in f.blocks:
        for i in b['instrs']:
            if i.get('reg') == reg and i['op'] != 'Phi' or not mentions(i, reg):
                continue
            if not place_use(pkg, f, i, lambda x: mentions(x, reg), stores, seen):
                return False
    return True


def place_use(pkg, f, i, is_it, stores, seen):
    op = i['op']
    if op == 'UnOp' and i.get('o') == '*':
        return True
    if op == 'BinOp' and i.get('o') in ('==', '!='):
        return True
    if op == 'Phi':
        return used_as_place(pkg, f, i['reg'], stores, seen)
    if op in ('FieldAddr', 'IndexAddr') and is_it(i['x']):
        return used_as_place(pkg, f, i['reg'], stores, seen)
    if op == 'Store':
        if not is_it(i['x']):
            return stores
        # into a local variable: what is loaded from it
        a = i['a']
        if a.get('k') != 'reg':
            return False
        return local_loads(pkg, f, a['n'], stores, seen)
    if op == 'Return':
        return results_ok(pkg, f, [k for k, r in enumerate(i['r']) if is_it(r)], len(i['r']), stores, seen)
    if op == 'Call' and 'invoke' not in i['call'] and i['call']['fn'].get('k') == 'func':
        g = pkg.funcs.get(i['call']['fn']['n'])
        if g is None or g.blocks is None or not g.target or len(g.params) != len(i['call']['args']):
            return False
        return all(used_as_place(pkg, g, n, stores, seen) for (n, _), a in zip(g.params, i['call']['args']) if is_it(a))
    return False


def local_loads(pkg, f, reg, stores, seen):
    """reg is a variable of f that never leaves it; what is loaded from it is only used as a place"""
    al = next((i for b in f.blocks for i in b['instrs'] if i.get('reg') == reg), None)
    if al is None or al['op'] != 'Alloc' or al.get('heap'):
        return False
    for b in f.blocks:
        for i in b['instrs']:
            if i is al or not mentions(i, reg):
                continue
            if i['op'] == 'Store' and not mentions(i['x'], reg):
                continue
            if i['op'] == 'UnOp' and i.get('o') == '*':
                if not used_as_place(pkg, f, i['reg'], stores, seen):
                    return False
                continue
            return False
    return True


def results_ok(pkg, f, ks, n, stores, seen):
    """results ks of f are only used as places by its callers, all in the package"""
    if f.short[:1].isupper():
        return False
    if (f.name, tuple(ks)) in seen:
        return True
    seen.add((f.name, tuple(ks)))
    for g in pkg.funcs.values():
        if g.blocks is None:
            continue
        for b in g.blocks:
            for i in b['instrs']:
                if not names_func(i, f.name):
                    continue
                if i['op'] == 'Defer' and not any(names_func(a, f.name) for a in i['call']['args']):
                    continue
                if i['op'] != 'Call' or 'invoke' in i['call'] or any(names_func(a, f.name) for a in i['call']['args']):
                    return False
                if n == 1:
                    if not used_as_place(pkg, g, i['reg'], stores, seen):
                        return False
                    continue
                for b2 in g.blocks:
                    for j in b2['instrs']:
                        if j is i or not mentions(j, i['reg']):
                            continue
                        if j['op'] != 'Extract':
                            return False
                        if j['i'] in ks and not used_as_place(pkg, g, j['reg'], stores, seen):
                            return False
    return True


def names_func(x, name):
    if isinstance(x, dict):
        if x.get('k') == 'func' and x.get('n') == name:
            return True
        return any(names_func(y, name) for y in x.values())
    if isinstance(x, list):
        return any(names_func(y, name) for y in x)
    return False


def mentions(x, reg):
    if isinstance(x, dict):
        if x.get('k') == 'reg' and x.get('n') == reg:
            return True
        return any(mentions(y, reg) for y in x.values())
    if isinstance(x, list):
        return any(mentions(y, reg) for y in x)
    return False


def reach(pkg, name):
    """functions a function may call"""
    cache = pkg.__dict__.setdefault('_reach', {})
    if name in cache:
        return cache[name]
    seen, work = set(), [name]
    while work:
        n = work.pop()
        f = pkg.funcs.get(n)
        if f is None or f.blocks is None:
            continue
        names = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'func':
                    names.add(x['n'])
                if 'invoke' in x:
                    for ms in pkg.methods.values():
                        if x['invoke'] in ms:
                            names.add(ms[x['invoke']])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        for b in f.blocks:
            for i in b['instrs']:
                walk(i)
        for m in names - seen:
            seen.add(m)
            work.append(m)
    cache[name] = seen
    return seen


# ---------------------------------------------------------------- loop help
class LoopSpec:
    """candidate loop summaries derived from the contract's own postcondition:
    the postcondition restricted to the first or the last k steps"""

    contents = True              # whether the contents matter for what is to be proved

    def __init__(self, c, env, concat=None):
        self.c, self.env, self.concat = c, env, concat

    def value_candidates(self, ctx, a0, l0, st):
        out = []
        c, env = self.c, self.env
        if c is not None and c.ret and c.ret[0] == 'bits64' and a0.w == 64 and not a0.fl:
            nm = self.count_param()

            def prefix(K):
                e = SymEnv(env.fields, env.buf, env.mem, dict(env.params))
                e.vars = dict(env.vars)
                if nm:
                    e.vars[nm] = K
                return IV(64, a0.s, 'b', e.bits64(c.ret))

            def low(K):
                full = env.bits64(c.ret)
                bits = []
                for j in range(64):
                    bits.append(bvite(simp_b(ilt(j, K)), z3.Extract(j, j, full), bvc(0, 1)))
                bits.reverse()
                return IV(64, a0.s, 'b', z3.Concat(*bits))
            out += [prefix, low]
        if self.concat is not None and a0.w == 64 and a0.s:
            def total(K):
                return IV(64, True, 'i', self.concat.S(K))
            out.append(total)
        return out

    def iter_facts(self, K):
        """what the ghost definitions say about iteration K"""
        return self.concat.facts(K) if self.concat is not None else []

    def point_facts(self, K, x):
        return [zb(self.concat.cat_fact(K, x))] if self.concat is not None else []

    def count_param(self):
        names = [p.name for p in self.c.params]
        return 'n' if 'n' in names else None

    def mem_candidates(self, ctx, rid, st):
        out = []
        c, env = self.c, self.env
        if c is not None and rid == env.buf.rid:
            for wr in c.writes:
                lo, hi = as_int(env.ev(wr[2])), as_int(env.ev(wr[3]))
                for step in (1, 2, 4, 8):
                    if wr[0] == 'bytes' and step > 1 and False:
                        continue
                    out.append(self.mk(wr, rid, lo, step, True))
                    out.append(self.mk(wr, rid, hi, step, False))
        if self.concat is not None:
            cc = self.concat
            node0 = st.mem[rid]
            if ctx.regions[rid].kind == 'fresh':
                def whole(K):
                    def f(x):
                        return band(ile(0, x), ilt(x, cc.S(K))), (lambda: IV(8, False, 'b', cc.cat(zi(x))))
                    return MComp(node0, f)
                out.append(whole)
        return out

    def anchors(self):
        """positions and counts the contract speaks of"""
        out = []
        c, env = self.c, self.env
        if c is not None:
            for p in c.params:
                v = env.params.get(p.name)
                if isinstance(v, IV) and v.w == 64 and v.s:
                    out.append(v.int())
                elif isinstance(v, SliceV):
                    out.append(v.len)
            if 'next' in c.groups:
                out += [env.fields['off'], env.fields['boff']]
        return [a.int() if isinstance(a, IV) else a for a in out]

    def part_candidates(self, ctx, rid):
        """the memory when the first or last d bytes (bits) are done"""
        out = []
        c, env = self.c, self.env
        if c is not None and rid == env.buf.rid:
            for wr in c.writes:
                lo, hi = as_int(env.ev(wr[2])), as_int(env.ev(wr[3]))
                for step in ((1, 2, 4, 8) if wr[0] == 'bytes' and c.fname[-4:] != 'Bits' else (1, 8)):
                    def fwd(d, wr=wr, step=step):
                        at = iadd(lo, simp_i(zi(d) * step))
                        return env.write_node(wr, env.mem[rid], lo, simp_i(z3.If(zi(at) < zi(hi), zi(at), zi(hi))))

                    def bwd(d, wr=wr, step=step):
                        at = isub(hi, simp_i(zi(d) * step))
                        return env.write_node(wr, env.mem[rid], simp_i(z3.If(zi(at) > zi(lo), zi(at), zi(lo))), hi)
                    out += [fwd, bwd]
        return out

    def mk(self, wr, rid, at, step, fwd):
        env = self.env

        def f(K):
            d = K * step if is_c(K) else simp_i(zi(K) * step)
            if fwd:
                return env.write_node(wr, env.mem[rid], at, iadd(at, d))
            return env.write_node(wr, env.mem[rid], isub(at, d), at)
        return f

    def has_concat(self):
        return self.concat is not None

    def concat_at(self, ctx, K, s, elem):
        return self.concat.at(ctx, K, s, elem)

    def join(self, ctx, st, sl):
        """bytes.Join of the inputs with an empty separator"""
        cc = self.concat
        if cc is None or sl.rid != cc.slices.rid or simp_b(ieq(sl.ptr, cc.slices.ptr)) is not True \
                or simp_b(ieq(sl.len, cc.slices.len)) is not True:
            return None
        return cc.at(ctx, sl.len, st, cc.el(0).elem)

    def concat_check(self, ctx, st, sl, K):
        return self.concat.check(ctx, st, sl, K)


class Concat:
    """ghost: S(k) is the total length of the first k inputs, cat(j) byte j of
    their concatenation.  Both are defined by their unfoldings; the instances
    the proof needs are added where they are needed."""

    def __init__(self, ctx, slices, mem):
        self.ctx, self.slices, self.mem = ctx, slices, mem
        self.Sf = z3.Function('S', z3.IntSort(), z3.IntSort())
        self.cat = z3.Function('cat', z3.IntSort(), z3.BitVecSort(8))

    def S(self, K):
        return self.Sf(zi(K)) if not (is_c(K) and K == 0) else 0

    def el(self, K):
        return self.mem[self.slices.rid].read(iadd(self.slices.ptr, K))

    def facts(self, K):
        """definition of S at K and K+1"""
        s = self.el(K)
        ok = band(ile(0, K), ilt(K, self.slices.len))
        fs = [bimp(ok, z3.And(*[zb(f) for f in self.ctx.slice_facts(s)])),
              bimp(ok, ieq(self.S(iadd(K, 1)), zi(self.S(K)) + zi(s.len)))]
        # the sums only grow (lemma): 0 <= S(k) <= S(m) for 0 <= k <= m
        m = self.slices.len
        for k in (K, iadd(K, 1)):
            fs.append(bimp(band(ile(0, k), ile(k, m)), band(ile(0, self.S(k)), ile(self.S(k), self.S(m)))))
        return fs

    def lemma(self, ch):
        """by induction downwards from m: S(k+1) <= S(m) gives S(k) <= S(m), and
        upwards from 0: 0 <= S(k) gives 0 <= S(k+1)"""
        k, m = z3.Int(self.ctx.fresh('k')), zi(self.slices.len)
        s = self.el(k)
        pc = [k >= 0, k < m, self.Sf(k + 1) == self.Sf(k) + zi(s.len), zi(s.len) >= 0]
        ch.ob('lemma', 'total lengths only grow: step downwards', pc + [self.Sf(k + 1) <= self.Sf(m)], self.Sf(k) <= self.Sf(m))
        ch.ob('lemma', 'total lengths only grow: step upwards', pc + [self.Sf(k) >= 0], self.Sf(k + 1) >= 0)

    def cat_fact(self, K, j):
        s = self.el(K)
        ok = band(ile(0, K), ilt(K, self.slices.len))
        d = isub(j, self.S(K))
        v = self.mem[s.rid].read(iadd(s.ptr, d)).bv()
        return bimp(band(ok, ile(0, d), ilt(d, s.len)), self.cat(zi(j)) == v)

    def at(self, ctx, K, s, elem):
        for f in self.facts(K):
            s.assume(f)
        cc = self
        rid = ctx.new_region(elem, 'fresh', s)
        node0 = s.mem[rid]
        n = self.S(K)

        def f(x):
            return band(ile(0, x), ilt(x, n)), (lambda: IV(8, False, 'b', cc.cat(zi(x))))
        s.mem[rid] = MComp(node0, f)
        cp = z3.Int(ctx.fresh('cap'))
        s.assume(z3.And(cp >= zi(n), cp <= MAXADDR, zi(n) >= 0))
        return SliceV(elem, rid, 0, n, cp, False)

    def check(self, ctx, st, sl, K):
        if not isinstance(sl, SliceV):
            return False
        pc = list(st.pc)
        prev = simp_i(zi(K) - 1)
        for f in self.facts(prev):
            pc.append(zb(f))
        if not loops.hard(ctx, pc, ieq(sl.len, self.S(K))):
            return False
        if ctx.regions[sl.rid].kind != 'fresh' and not loops.hard(ctx, pc, ieq(sl.len, 0)):
            return False
        j = z3.Int(ctx.fresh('j'))
        pc += [j >= 0, j < zi(self.S(K)), zb(self.cat_fact(prev, j))]
        return loops.hard(ctx, pc, st.mem[sl.rid].read(iadd(sl.ptr, j)).bv() == self.cat(j))


# ---------------------------------------------------------------- set-up
class Setup:
    pass


def struct_type(pkg, recv):
    t = pkg.path + '.' + recv
    d = pkg.types.get(t)
    if d is None:
        raise Unsupported('no type ' + recv)
    return t, d


def field_index(d):
    ix = {f['name']: k for k, f in enumerate(d['fields'])}
    for n in ('buf', 'off', 'cap', 'boff', 'bcap'):
        if n not in ix:
            raise Unsupported('no field ' + n)
    return ix


def new_ctx(pkg):
    ctx = Ctx(pkg, Prover(QUICK_MS, FULL_MS))
    init, mutable, err = global_facts(pkg)
    ctx.global_init, ctx.mutable_globals = init, mutable
    return ctx


def setup(pkg, c, variant=None):
    """variant: nothing is assumed of the arguments (verify_total); it gives the
    dynamic types of interface arguments"""
    S = Setup()
    total = variant is not None
    variant = variant or {}
    S.c, S.pkg = c, pkg
    fn = pkg.method(c.recv, c.fname)
    if fn is None:
        raise Unsupported('function %s.%s does not exist' % (c.recv, c.fname))
    S.fn = fn
    ctx = S.ctx = new_ctx(pkg)
    st = S.st = State()
    t, d = struct_type(pkg, c.recv)
    ix = S.ix = field_index(d)
    obj = S.obj = 'recv'
    v = ctx.fresh_value(t, 'b', st)
    f = list(v.f)
    buf = f[ix['buf']]
    if not c.noinvariant:
        f[ix['cap']] = IV(64, True, 'i', buf.len)
        f[ix['bcap']] = IV(64, True, 'i', simp_i(8 * buf.len))
    else:                                              # capacities of an earlier length
        cap = f[ix['cap']].int()
        st.assume(z3.And(zi(cap) >= 0, zi(cap) <= 1 << 47))
        f[ix['bcap']] = IV(64, True, 'i', simp_i(8 * zi(cap)))
    st.cells[obj] = StructV(v.t, f)
    S.buf = buf
    S.recv0 = st.cells[obj]
    fields = {n: f[ix[n]].int() for n in ('off', 'cap', 'boff', 'bcap')}
    args = [PtrV(obj, (), t)]
    params = {}
    sp = fn.params[1:]
    if len(sp) != len(c.params):
        raise Unsupported('%s has %d parameters, its contract %d' % (fn.name, len(sp), len(c.params)))
    S.params = []
    for (rn, pt), p in zip(sp, c.params):
        if p.name in variant:
            val = pv = variant_value(ctx, variant[p.name], p, pt, st)
        elif total and p.given and p.given[0] == 'int':
            val = pv = ctx.fresh_value(pt, 'p.' + p.name, st)
        elif p.given and p.given[0] == 'int':
            ii = ctx.intinfo(pt)
            val = pv = IV(ii[0], ii[1], 'i', p.given[1])
        elif p.given and p.type == 'interface':
            dyn = p.given[1].replace('uint8', 'byte') if p.given[1].replace('uint8', 'byte') in pkg.types else p.given[1]
            if dyn not in pkg.types:
                raise Unsupported('type ' + dyn)
            pv = ctx.fresh_value(dyn, 'p.' + p.name, st)
            val = IfaceV(dyn, pv)
        elif p.given:
            val = pv = IfaceV(p.given[1], StructV(p.given[1], ()))
        elif p.type == '*':
            dd = ctx.ty(pt)
            if dd['k'] != 'ptr':
                raise Unsupported('destination is not a pointer')
            st.cells['out'] = ctx.fresh_value(dd['elem'], 'out^', st)
            val = PtrV('out', (), dd['elem'])
            pv = st.cells['out']
        else:
            val = pv = ctx.fresh_value(pt, 'p.' + p.name, st)
        args.append(val)
        params[p.name] = pv
        S.params.append((p, pv))
    S.args = args
    env = S.env = SymEnv(fields, buf, dict(st.mem), params)
    S.fields = fields
    if not c.mini and lockable(pkg, d):
        ctx.lock_obj, ctx.lock_rid = obj, buf.rid
    S.lock = ctx.lock_obj is not None
    ctx.apply = Applier(S.pkg, fn)
    if total:
        S.conds, S.may = [], []
        ctx.spec = LoopSpec(c if c.writes and not variant else None, env)
        return S
    for r in c.requires:
        st.assume(env.ev(r))
    if c.mini and c.ret and c.ret[0] == 'fresh':
        out = params['out']
        if not isinstance(out, SliceV):
            raise Unsupported('destination is not a slice')
        st.assume(ile(as_int(env.ev(c.ret[2])), out.len))
    S.conds = [(e, simp_b(env.ev(x)), al) for e, x, al in c.panics]
    S.may = [simp_b(env.ev(x)) for x in c.maypanics]
    ctx.spec = LoopSpec(c, env)
    return S


def variant_value(ctx, what, p, pt, st):
    if what == 'nil':
        return NilV(pt)
    if what == 'user':                       # a type of the caller's own
        return IfaceV('?user', Opaque('user'))
    if what.startswith('[]'):
        dyn = what.replace('uint8', 'byte') if what.replace('uint8', 'byte') in ctx.pkg.types else what
        if dyn not in ctx.pkg.types:
            dyn = what
        if dyn not in ctx.pkg.types:
            return IfaceV('?' + what, Opaque(what))
        return IfaceV(dyn, ctx.fresh_value(dyn, 'p.' + p.name, st))
    return IfaceV(what, StructV(what, ()))


def lockable(pkg, d):
    return any(f['t'] in ('sync.Mutex', 'sync.RWMutex') for f in d['fields'])


# ---------------------------------------------------------------- modular calls
class Applier:
    """replaces a call of a function under contract by its contract"""
    specs = None

    def __init__(self, pkg, top):
        self.pkg, self.top = pkg, top
        self.skip = ()

    def __call__(self, ctx, fn, args, st):
        if fn.name == self.top.name or fn.recv is None or not args or ctx.bounded is not None:
            return None
        r = fn.recv.lstrip('*').rsplit('.', 1)[-1]
        key = (Applier.tag(self.pkg), r, fn.short)
        c = Applier.specs.contracts.get(key)
        if c is None or c.id in self.skip or c.grow or c.rebuf or c.noinvariant or c.maypanics:
            return None
        if self.top.name in reach(self.pkg, fn.name):
            return None
        p = args[0]
        if not isinstance(p, PtrV) or p.path or p.obj not in st.cells:
            return None
        v = st.cells[p.obj]
        t, d = struct_type(self.pkg, r)
        if not isinstance(v, StructV) or v.t != t or len(args) - 1 != len(c.params):
            return None
        try:
            return self.go(ctx, fn, c, args, st, v, d)
        except (SpecError, KeyError, AttributeError, TypeError):
            return None

    @staticmethod
    def tag(pkg):
        return pkg.tag

    def go(self, ctx, fn, c, args, st, v, d):
        ix = field_index(d)
        obj = args[0].obj
        buf = v.f[ix['buf']]
        if not isinstance(buf, SliceV):
            return None
        # other receivers must not be confused with it; invariant and requires hold
        pr = lambda g: loops.hard(ctx, st.pc, g) if not ctx.optimistic else True
        if not pr(band(ieq(v.f[ix['cap']].int(), buf.len), ieq(v.f[ix['bcap']].int(), simp_i(8 * zi(buf.len))))):
            return None
        if lockable(self.pkg, d) and st.locks.get(obj):
            return None
        params, out = {}, None
        for p, a in zip(c.params, args[1:]):
            if p.type == '*':
                if not isinstance(a, PtrV) or a.obj == obj:
                    return None
                out = a
                params[p.name] = ctx.cell_get(st, a)
            else:
                params[p.name] = a
        fields = {n: v.f[ix[n]].int() for n in ('off', 'cap', 'boff', 'bcap')}
        env = SymEnv(fields, buf, dict(st.mem), params)
        for r in c.requires:
            if not pr(env.ev(r)):
                return None
        if c.mini and c.ret and c.ret[0] == 'fresh' and not pr(ile(as_int(env.ev(c.ret[2])), params['out'].len)):
            return None
        outs = []
        neg = []
        for e, x, al in c.panics:
            cond = simp_b(env.ev(x))
            if cond is False:
                continue
            neg.append(bnot(cond))
            if cond is True or ctx.feasible(st, cond):
                s = st.fork()
                s.assume(cond)
                if e == 'any':
                    val = RtPanic('rejected by ' + fn.short)
                else:
                    gi = ctx.global_init.get(self.pkg.path + '.' + e) or ctx.global_init.get(e)
                    if gi is None or e in ctx.mutable_globals:
                        return None
                    val = IfaceV(self.pkg.path + '.Error', gi[0])
                if c.onpanic:
                    hv = MBase(ctx.base_reader(ctx.fresh('hv'), ctx.regions[buf.rid].elem))
                    lo, hi = as_int(env.ev(c.onpanic[0])), as_int(env.ev(c.onpanic[1]))
                    s.mem[buf.rid] = bits_havoc(st.mem[buf.rid], hv, buf, lo, hi)
                outs.append(Outcome('panic', s, val, None))
        s = st.fork()
        for g in neg:
            s.assume(g)
        if not ctx.feasible(s):
            return outs
        for wr in c.writes:
            s.mem[buf.rid] = env.write_node(wr, s.mem[buf.rid])
        if c.sets:
            f = list(v.f)
            for n, e in c.sets:
                f[ix[n]] = IV(64, True, 'i', as_int(env.ev(e)))
            s.cells[obj] = StructV(v.t, f)
        val = None
        if c.ret:
            val = self.result(ctx, fn, c, env, s, buf, params)
            if val is None:
                return None
            if c.mini:
                if c.ret[0] != 'fresh':
                    ctx.cell_set(s, out, val)
                val = None
        outs.append(Outcome('ret', s, val))
        ctx.applied[c.id] = ctx.applied.get(c.id, 0) + 1
        return outs

    def result(self, ctx, fn, c, env, s, buf, params):
        k = c.ret[0]
        if k == 'scalar':
            ii = BASIC[c.ret[1]]
            e = env.ev(c.ret[2])
            if ii == (64, True):
                return IV(64, True, 'i', as_int(e))
            return IV(ii[0], ii[1], 'b', zx(as_bv_any(e, ii[0]), ii[0]))
        if k == 'bits64':
            return IV(64, False, 'b', env.bits64(c.ret))
        if k == 'window':
            lo, hi = as_int(env.ev(c.ret[1])), as_int(env.ev(c.ret[2]))
            cp = z3.Int(ctx.fresh('wcap'))
            ln = isub(hi, lo)
            s.assume(z3.And(cp >= zi(ln), cp <= zi(buf.cap) - zi(lo)))
            return SliceV(buf.elem, buf.rid, iadd(buf.ptr, lo), ln, cp, False)
        if k == 'fresh':
            elem, n = c.ret[1], as_int(env.ev(c.ret[2]))
            w, sg, fl = ctx.intinfo(elem)
            var, ex = c.ret[3], c.ret[4]
            val = lambda i: IV(w, sg, 'b', as_bv(env.with_vars(**{var: i}).ev(ex), w), fl)
            if c.mini:
                o = params['out']
                rw, rs, rf = ctx.intinfo(ctx.regions[o.rid].elem)
                s.mem[o.rid] = MComp(s.mem[o.rid], in_range(o.ptr, n, lambda i: val(i).retag(rw, rs, rf)))
                return True
            rid = ctx.new_region(elem, 'fresh', s)
            s.mem[rid] = MComp(s.mem[rid], in_range(0, n, val))
            cp = z3.Int(ctx.fresh('rcap'))
            s.assume(z3.And(cp >= zi(n), cp <= MAXADDR))
            return SliceV(elem, rid, 0, n, cp, False)
        return None


def zx(v, w):
    return v if v.size() == w else z3.ZeroExt(w - v.size(), v)


def as_bv_any(e, w):
    if isinstance(e, SBV):
        return e.v
    return bvc(e, w)


def bits_havoc(old, hv, buf, lo, hi):
    def g(x):
        r = isub(x, buf.ptr)
        base = simp_i(zi(r) * 8)

        def val():
            o, h = old.read(x).bv(), hv.read(x).bv()
            bits = []
            for j in range(8):
                y = simp_i(zi(base) + j)
                inr = simp_b(band(ile(lo, y), ilt(y, hi), ile(0, r), ilt(r, buf.len)))
                bits.append(bvite(inr, z3.Extract(7 - j, 7 - j, h), z3.Extract(7 - j, 7 - j, o)))
            return IV(8, False, 'b', z3.Concat(*bits))
        return band(ilt(lo, iadd(base, 8)), ilt(base, hi), ile(0, r), ilt(r, buf.len)), val
    return MComp(old, g)


# ---------------------------------------------------------------- checking
class Checker:
    def __init__(self, S, res):
        self.S, self.res = S, res
        self.ctx = S.ctx
        self.seen = {}

    def ob(self, kind, name, pc, goal, extra=()):
        """one obligation: pc and extra imply goal"""
        goal = simp_b(goal)
        if goal is True:
            self.res.obls.append(Obl(kind, name, 'proved'))
            self.res.trivial += 1
            return True
        pcs = list(pc)
        for e in extra:
            if e is True:
                continue
            pcs.append(zb(e))
        if loops.hard(self.ctx, pcs, goal):
            self.res.obls.append(Obl(kind, name, 'proved'))
            return True
        if self.seen.get((kind, name), 0) >= 3:
            self.res.obls.append(Obl(kind, name, 'failed', 'as above'))
            return False
        self.seen[(kind, name)] = self.seen.get((kind, name), 0) + 1
        case, det = self.model(pcs, goal)
        self.res.obls.append(Obl(kind, name, 'failed', det, case))
        return False

    def model(self, pcs, goal):
        S = self.S
        det = ''
        for lim in (24, 300, None):
            small = []
            if lim:
                small.append(zi(S.buf.len) <= lim)
                small.append(zi(S.buf.cap) <= lim + 8)
                for p, v in S.params:
                    if isinstance(v, SliceV):
                        small += [zi(v.len) <= lim, zi(v.cap) <= lim + 8]
            r, m = self.ctx.pr.refute(pcs + small, goal, ms=2500)
            if r == 'refuted':
                try:
                    return case_of(S, m), 'z3: sat (counterexample)'
                except Exception as e:          # model outside what the driver can build
                    det = 'z3: sat, counterexample not realisable (%s)' % e
                    continue
            det = det or 'z3: ' + ('unsat' if r == 'proved' else 'unknown')
        return None, det

    # ---- memory
    def memory(self, o, kind_in, kind_out, expect, skip=(), pc_in=None):
        """every region that existed before: expect(rid) gives the node and the
        predicate of addresses that may be written, or None when unchanged"""
        S, ctx = self.S, self.ctx
        for rid, node in o.st.mem.items():
            reg = ctx.regions[rid]
            if reg.kind in ('fresh', 'old') or rid in skip:
                continue
            if reg.kind == 'ext':
                pre = ctx.ext_base(rid, reg.elem)
            else:
                pre = next((r[rid][1] for _, (v, r) in ctx.global_init.items() if rid in r), None)
            ex = expect(rid) if expect else None
            if ex is None:
                if node is pre:
                    self.trivially(kind_out, 'memory of type %s unchanged' % reg.elem)
                    continue
                x = z3.Int(ctx.fresh('x'))
                self.ob(kind_out, 'memory of type %s unchanged' % reg.elem, o.st.pc, veq(node.read(x), pre.read(x)))
                continue
            want, inside = ex
            x = z3.Int(ctx.fresh('x'))
            i = simp_b(inside(x))
            goal = veq(node.read(x), want.read(x))
            self.ob(kind_in, 'bytes written are the specified ones', o.st.pc if pc_in is None else pc_in, goal, [i])
            if node is pre:
                self.trivially(kind_out, 'bytes outside the written range unchanged')
            else:
                self.ob(kind_out, 'bytes outside the written range unchanged', o.st.pc,
                        veq(node.read(x), pre.read(x)), [bnot(i)])

    def trivially(self, kind, name):
        self.res.obls.append(Obl(kind, name, 'proved'))
        self.res.trivial += 1

    def globals_same(self, o, kind):
        for k, v in o.st.cells.items():
            if k.startswith('global:') and k[7:] in self.ctx.global_init and k[7:] not in self.ctx.mutable_globals:
                v0 = self.ctx.global_init[k[7:]][0]
                if not vsame(v, v0):
                    self.ob(kind, 'package variable %s unchanged' % k[7:], o.st.pc, veq(v, v0))
            elif k.startswith('global:') and k[7:] in self.ctx.mutable_globals:
                pass

    def lock(self, o, where):
        S = self.S
        if not S.lock:
            return
        self.ob('lock', 'lock released on ' + where, o.st.pc, not o.st.locks.get(S.obj, False))
        bad = list(o.st.bad) + list(self.ctx.extra_bad)
        self.ob('lock', 'lock discipline on ' + where + (': ' + '; '.join(sorted(set(bad))) if bad else ''),
                o.st.pc, not bad)

    # ---- outcomes
    def panic(self, o):
        S, c, ctx = self.S, self.S.c, self.ctx
        pc = o.st.pc
        v = o.val
        anyc = [x for e, x, al in S.conds if e == 'any'] + S.may
        if isinstance(v, IfaceV):
            names = []
            if isinstance(v.v, StructV):
                for n, (gv, _) in ctx.global_init.items():
                    if n in ctx.mutable_globals or not isinstance(gv, StructV) or gv.t != v.v.t:
                        continue
                    try:
                        if veq(gv, v.v) is True and v.dyn == gv.t:
                            names.append(n.rsplit('.', 1)[-1])
                    except Unsupported:
                        pass
            ok = bor(*([x for e, x, al in S.conds if e in names] + anyc))
            kind, name = 'panic', 'panic with %s only when specified' % ('/'.join(names) or 'an unknown value')
        else:
            ok = bor(*anyc)
            kind, name = 'runtime', 'no run-time panic (%s)' % (v.what if isinstance(v, RtPanic) else '?')
        rejected = bor(*([x for e, x, al in S.conds] + S.may))
        self.ob('nopanic', 'a call whose arguments fit does not panic (%s)' % name, pc, rejected)
        self.ob(kind, name, pc, ok, [rejected])
        # a panic although the arguments fit is not a rejection ('nopanic' says so)
        self.panicframe(o, [rejected])
        self.lock(o, 'panic')

    def panicframe(self, o, when):
        S, c, ctx = self.S, self.S.c, self.ctx
        st = o.st.fork()
        for e in when:
            if e is not True:
                st.assume(e)
        o = Outcome(o.kind, st, o.val, None)
        pc = st.pc
        if not ctx.pr.sat(pc):
            return
        recv = o.st.cells[S.obj]
        for n in ('off', 'boff'):
            self.ob('panicframe:' + n, '%s unchanged on panic' % n, pc,
                    ieq(recv.f[S.ix[n]].int(), S.recv0.f[S.ix[n]].int()))
        for n in ('cap', 'bcap'):
            self.ob('panicframe', '%s unchanged on panic' % n, pc, ieq(recv.f[S.ix[n]].int(), S.recv0.f[S.ix[n]].int()))
        self.header(o, 'panicframe')
        if c.onpanic:
            lo, hi = as_int(S.env.ev(c.onpanic[0])), as_int(S.env.ev(c.onpanic[1]))

            def expect(rid):
                if rid != S.buf.rid:
                    return None
                fin = o.st.mem[rid]
                return bits_havoc(S.env.mem[rid], fin, S.buf, lo, hi), (lambda x: False)
            rid = S.buf.rid
            x = z3.Int(ctx.fresh('x'))
            self.ob('panicframe', 'only requested bits changed on panic', pc,
                    veq(o.st.mem[rid].read(x), bits_havoc(S.env.mem[rid], o.st.mem[rid], S.buf, lo, hi).read(x)))
            self.memory(o, 'panicframe', 'panicframe', None, skip=(rid,))
        else:
            self.memory(o, 'panicframe', 'panicframe', None)
        self.globals_same(o, 'panicframe')

    def header(self, o, kind):
        S = self.S
        b = o.st.cells[S.obj].f[S.ix['buf']]
        b0 = S.buf
        self.ob(kind, 'buffer length unchanged', o.st.pc, ieq(b.len, b0.len))
        self.ob(kind, 'spare room of the buffer storage unchanged', o.st.pc, ieq(b.cap, b0.cap))
        if b.rid != b0.rid:
            self.ob(kind, 'buffer storage unchanged', o.st.pc, ieq(b0.len, 0))
        else:
            self.ob(kind, 'buffer storage unchanged', o.st.pc, bor(ieq(b.ptr, b0.ptr), ieq(b0.len, 0)))

    def total(self, o, variant):
        S, c = self.S, self.S.c
        pc = o.st.pc
        recv = o.st.cells[S.obj]
        b = recv.f[S.ix['buf']]
        self.lock(o, 'return' if o.kind == 'ret' else 'panic')
        if o.kind == 'ret' or not c.mini:
            self.ob('wf', 'capacity equals length', pc, ieq(recv.f[S.ix['cap']].int(), b.len))
            self.ob('wf', 'bit capacity is eight times the length', pc,
                    ieq(recv.f[S.ix['bcap']].int(), simp_i(8 * zi(b.len))))
        sets = dict(c.sets)
        n = S.env.params.get('n')
        # a count so far below zero that n-1 wraps is left unspecified
        sane = ile(-2 ** 62, n.int()) if n is not None else True
        if o.kind == 'panic':
            if not c.mini and variant.get('endian') != 'user':
                self.panicframe(o, [bnot(self.fits(variant)), sane])
            return
        if sane is not True:
            o = Outcome(o.kind, o.st.fork(), o.val, None)
            o.st.assume(sane)
            if not self.ctx.pr.sat(o.st.pc):
                return
            pc = o.st.pc
        for n in ('off', 'boff'):
            if n not in sets:
                self.ob('field:' + n, '%s cursor' % ('byte' if n == 'off' else 'bit'), pc,
                        ieq(recv.f[S.ix[n]].int(), S.recv0.f[S.ix[n]].int()))
        if 'read' in c.groups:
            skip = []
            out = S.env.params.get('out')
            if c.mini and isinstance(out, SliceV) and out.rid != S.buf.rid:
                skip.append(out.rid)
            self.header(o, 'hdr')
            self.memory(o, 'frame', 'frame', None, skip)
            self.globals_same(o, 'frame')

    def fits(self, variant):
        """some contract of the function says that the call returns"""
        S, c = self.S, self.S.c
        out = []
        for bc in Applier.specs.of(c.pkg, c.recv, c.fname):
            cs = []
            env = SymEnv(S.fields, S.buf, S.env.mem, dict(S.env.params))
            for p in bc.params:
                v = S.env.params[p.name]
                if p.given and p.given[0] == 'int':
                    cs.append(ieq(v.int(), p.given[1]))
                elif p.given:
                    if not isinstance(v, IfaceV) or v.dyn.replace('[]byte', '[]uint8') != p.given[1]:
                        break
                    if p.type == 'interface':
                        env.params[p.name] = v.v
            else:
                cs += [env.ev(r) for r in bc.requires] + [bnot(env.ev(x)) for e, x, al in bc.panics] + [bnot(env.ev(x)) for x in bc.maypanics]
                out.append(band(*cs))
        return bor(*out)

    def ret(self, o):
        S, c, ctx, env = self.S, self.S.c, self.ctx, self.S.env
        pc = o.st.pc
        # what is stored and returned is specified for accepted calls; that a
        # call which should be rejected returns is the failed panic obligation
        o_in = o
        for e, x, al in S.conds:
            if not self.ob('panic', 'panics with %s' % e, pc, bnot(x)):
                if o_in is o:
                    o_in = Outcome(o.kind, o.st.fork(), o.val, None)
                o_in.st.assume(bnot(x))
        recv = o.st.cells[S.obj]
        skip = []
        if o_in is o or ctx.pr.sat(o_in.st.pc):
            self.result(o_in, skip)
        elif c.ret and c.ret[0] == 'fresh' and c.mini and isinstance(o.st.cells['out'], SliceV):
            skip.append(o.st.cells['out'].rid)
        b = recv.f[S.ix['buf']]
        sets = dict(c.sets)
        for n in ('off', 'boff'):
            want = as_int(env.ev(sets[n])) if n in sets else S.recv0.f[S.ix[n]].int()
            self.ob('field:' + n, '%s cursor' % ('byte' if n == 'off' else 'bit'), pc, ieq(recv.f[S.ix[n]].int(), want))
        self.ob('wf', 'capacity equals length', pc, ieq(recv.f[S.ix['cap']].int(), b.len))
        self.ob('wf', 'bit capacity is eight times the length', pc,
                ieq(recv.f[S.ix['bcap']].int(), simp_i(8 * zi(b.len))))
        if c.rebuf or c.grow is not None:
            self.rebuf(o, b)
        else:
            self.header(o, 'hdr')
            if c.writes:
                def expect(rid):
                    if rid != S.buf.rid:
                        return None
                    node = env.mem[rid]
                    for wr in c.writes:
                        node = env.write_node(wr, node)
                    return node, (lambda x: bor(*[env.in_write(wr, x) for wr in c.writes]))
                self.memory(o, 'content', 'frame', expect, skip, o_in.st.pc)
            else:
                self.memory(o, 'frame', 'frame', None, skip)
        self.globals_same(o, 'frame')
        for k, v in S.st.cells.items():
            if k not in (S.obj, 'out') and k in o.st.cells and not vsame(o.st.cells[k], v):
                self.ob('frame', 'other objects unchanged', pc, False)
        self.lock(o, 'return')

    def rebuf(self, o, b):
        S, c, ctx, env = self.S, self.S.c, self.ctx, self.S.env
        pc = o.st.pc
        i = z3.Int(ctx.fresh('i'))
        rd = lambda k: o.st.mem[b.rid].read(iadd(b.ptr, k))
        old = lambda k: env.mem[S.buf.rid].read(iadd(S.buf.ptr, k))
        if c.grow is not None:
            n = as_int(env.ev(c.grow))
            self.ob('result', 'length grows by exactly n', pc, ieq(b.len, iadd(S.buf.len, n)))
            self.ob('content', 'existing bytes kept', pc, veq(rd(i), old(i)), [i >= 0, i < zi(S.buf.len)])
            self.ob('content', 'new bytes are zero', pc, rd(i).bv() == 0,
                    [i >= zi(S.buf.len), i < zi(S.buf.len) + zi(n)])

            def inside(x):
                r = isub(x, S.buf.ptr)
                return band(ile(S.buf.len, r), ilt(r, iadd(S.buf.len, n)), ilt(r, S.buf.cap))
        else:
            lo, hi = as_int(env.ev(c.rebuf[0])), as_int(env.ev(c.rebuf[1]))
            self.ob('result', 'remaining length', pc, ieq(b.len, isub(hi, lo)))
            self.ob('content', 'remaining bytes', pc, veq(rd(i), old(iadd(lo, i))), [i >= 0, i < zi(isub(hi, lo))])

            def inside(x):
                r = isub(x, S.buf.ptr)
                return band(ile(0, r), ilt(r, S.buf.cap))
        rid = S.buf.rid
        if o.st.mem[rid] is not ctx.ext_base(rid, ctx.regions[rid].elem):
            x = z3.Int(ctx.fresh('x'))
            self.ob('frame', 'memory outside the buffer unchanged', pc,
                    veq(o.st.mem[rid].read(x), env.mem[rid].read(x)), [bnot(inside(x))])
        else:
            self.trivially('frame', 'memory outside the buffer unchanged')
        self.memory(o, 'frame', 'frame', None, skip=(rid,))

    def bits(self, pc, got, want):
        """equality of two 64-bit words: replace loop counters that are known
        to equal the bit count, then compare bit by bit"""
        n = self.S.env.params.get('n')
        n = zi(n.v) if isinstance(n, IV) and n.rep == 'i' else None
        if n is not None:
            names = set()
            loops.symbols(got, names, set())
            for nm in sorted(names):
                if nm.startswith('k!'):
                    k = z3.Int(nm)
                    for d in (0, 1):
                        if loops.hard(self.ctx, pc, k + d == n):
                            got = z3.substitute(got, (k, simp_i(n - d)))
                            break
        got, want = z3.simplify(got), z3.simplify(want)
        if got.eq(want):
            self.ob('result', 'result', pc, True)
            return
        if self.ctx.pr.prove(pc, got == want):
            self.ob('result', 'result', pc, True)
            return
        for j in range(64):
            if not self.ob('result', 'bit %d of the result' % j, pc, z3.Extract(j, j, got) == z3.Extract(j, j, want)):
                return

    def result(self, o, skip):
        S, c, ctx, env = self.S, self.S.c, self.ctx, self.S.env
        pc = o.st.pc
        if not c.ret:
            return
        val = o.st.cells['out'] if c.mini else o.val
        k = c.ret[0]
        if k in ('iwindow', 'ifresh'):
            want = '[]uint8' if k == 'iwindow' else '[]' + c.ret[1]
            if not isinstance(val, IfaceV) or not ctx.same_type(val.dyn, want):
                self.ob('result', 'dynamic type of the result is ' + want, pc, False)
                return
            val = val.v
            k = k[1:]
        if k == 'scalar':
            if not isinstance(val, IV):
                self.ob('result', 'result is a number', pc, False)
                return
            e = env.ev(c.ret[2])
            if c.ret[1] == 'int64':
                g = ieq(val.int(), as_int(e))
            else:
                g = val.bv() == zx(as_bv_any(e, val.w), val.w)
            self.ob('result', 'result', pc, g)
            return
        if k == 'bits64':
            if not isinstance(val, IV) or val.w != 64:
                self.ob('result', 'result is a number', pc, False)
                return
            self.bits(pc, val.bv(), env.bits64(c.ret))
            return
        if not isinstance(val, SliceV):
            self.ob('result', 'result is a slice', pc, False)
            return
        if k == 'window':
            lo, hi = as_int(env.ev(c.ret[1])), as_int(env.ev(c.ret[2]))
            self.ob('result', 'length of the result', pc, ieq(val.len, isub(hi, lo)))
            if val.rid != S.buf.rid:
                self.ob('alias', 'result is the buffer\'s own storage', pc, ieq(isub(hi, lo), 0))
            else:
                self.ob('alias', 'result is the buffer\'s own storage', pc,
                        bor(ieq(isub(hi, lo), 0), ieq(val.ptr, iadd(S.buf.ptr, lo))))
            return
        elem, n, var, ex = c.ret[1], as_int(env.ev(c.ret[2])), c.ret[3], c.ret[4]
        w = SIZES[elem] * 8
        want = lambda i: as_bv(env.with_vars(**{var: i}).ev(ex), w)
        i = z3.Int(ctx.fresh('i'))
        if c.mini and c.ret[0] == 'fresh':
            o0 = env.params['out']
            same = val.rid == o0.rid
            self.ob('result', 'destination slice header unchanged', pc,
                    same and band(ieq(val.len, o0.len), bor(ieq(val.ptr, o0.ptr), ieq(o0.len, 0))))
            if not same:
                return
            node, pre = o.st.mem[o0.rid], ctx.ext_base(o0.rid, ctx.regions[o0.rid].elem)
            self.ob('result', 'elements read', pc, node.read(iadd(o0.ptr, i)).bv() == want(i), [i >= 0, i < zi(n)])
            x = z3.Int(ctx.fresh('x'))
            d = isub(x, o0.ptr)
            self.ob('dest', 'destination beyond the elements read unchanged', pc,
                    veq(node.read(x), pre.read(x)), [bnot(band(ile(0, d), ilt(d, n)))])
            skip.append(o0.rid)
            return
        self.ob('result', 'length of the result', pc, ieq(val.len, n))
        self.ob('fresh', 'result does not share memory', pc,
                True if ctx.regions[val.rid].kind == 'fresh' else ieq(n, 0))
        if ctx.regions[val.rid].kind == 'fresh':
            b = o.st.cells[S.obj].f[S.ix['buf']]
            if b.rid == val.rid:
                self.ob('fresh', 'result does not become the buffer', pc, ieq(n, 0))
        self.ob('result', 'elements read', pc, o.st.mem[val.rid].read(iadd(val.ptr, i)).bv() == want(i),
                [i >= 0, i < zi(n)])


def verify(pkg, c, bounded=None, noapply=(), extra=()):
    """bounded: unroll loops that often instead of proving them (only to look
    for counterexamples); noapply: contracts that may not be used at calls;
    extra: further preconditions"""
    t0 = time.time()
    res = Result(c.id)
    try:
        S = setup(pkg, c)
        S.ctx.bounded = bounded
        S.ctx.apply.skip = noapply
        for e in extra:
            S.st.assume(S.env.ev(e))
        res.loc = '%s:%s' % (S.fn.file, S.fn.line)
        ctx = S.ctx
        if not ctx.pr.sat(S.st.pc):
            res.vacuous = True
        outs = ctx.run(S.fn, S.args, S.st.fork())
        res.paths = len(outs)
        ch = Checker(S, res)
        for o in outs:
            if not ctx.pr.sat(o.st.pc):
                continue
            if o.kind == 'ret':
                res.cover = True
                ch.ret(o)
            elif o.kind == 'panic':
                if any(al and x is True for e, x, al in S.conds):
                    res.cover = True
                ch.panic(o)
            else:
                raise Unsupported('outcome ' + o.kind)
        if ctx.term_fail:
            res.obls.append(Obl('term', 'termination: ' + ', '.join(sorted(set(ctx.term_fail))), 'failed', 'no decreasing measure found'))
        else:
            res.obls.append(Obl('term', 'termination', 'proved'))
        res.inlined = sorted(ctx.inlined)
        res.applied = ctx.applied
        res.loops = ctx.loop_log
        res.queries = ctx.pr.n_quick
        res.solver_s = ctx.pr.secs
        res.dual += ctx.pr.kept
        res.unsat += ctx.pr.n_unsat
        res.unknowns = ctx.pr.unknowns
    except Unsupported as e:
        res.unsupported = str(e)
    except SpecError as e:
        res.unsupported = 'contract: ' + str(e)
    except z3.Z3Exception as e:
        res.unsupported = 'solver: ' + str(e)
    res.time = time.time() - t0
    return res


# ---------------------------------------------------------------- any arguments
DATA = ('nil', '[]uint8', '[]uint16', '[]uint32', '[]uint64', 'user')
ORDERS = ('nil', 'encoding/binary.littleEndian', 'encoding/binary.bigEndian', 'user')


def variants(c):
    """the dynamic types of the interface parameters, or [{}] if there are none"""
    out = [{}]
    for p in c.params:
        if p.type == 'interface':
            out = [dict(v, **{p.name: d}) for v in out for d in DATA]
        elif p.given and p.given[0] == 'dyn':
            out = [dict(v, **{p.name: d}) for v in out for d in ORDERS]
    return out


def verify_total(pkg, c, bounded=None, noapply=()):
    """what holds of a function whatever its arguments are: it terminates, the
    lock is released and was held for every change, the invariant is kept,
    reads change nothing, a panic of a checked buffer changes nothing"""
    t0 = time.time()
    res = Result(c.id.split('@')[0] + ' (any arguments)')
    try:
        for v in variants(c):
            S = setup(pkg, c, v)
            S.ctx.bounded = bounded
            S.ctx.apply.skip = noapply
            res.loc = '%s:%s' % (S.fn.file, S.fn.line)
            ctx = S.ctx
            if ctx.spec is not None:
                ctx.spec.contents = False
            if not ctx.pr.sat(S.st.pc):
                res.vacuous = True
            n0 = len(res.obls)
            outs = ctx.run(S.fn, S.args, S.st.fork())
            res.paths += len(outs)
            ch = Checker(S, res)
            for o in outs:
                if not ctx.pr.sat(o.st.pc):
                    continue
                res.cover = True
                if o.kind not in ('ret', 'panic'):
                    raise Unsupported('outcome ' + o.kind)
                ch.total(o, v)
            res.obls.append(Obl('term', 'termination' + (': ' + ', '.join(sorted(set(ctx.term_fail))) if ctx.term_fail else ''),
                                'failed' if ctx.term_fail else 'proved', 'no decreasing measure found' if ctx.term_fail else ''))
            if v:
                for o in res.obls[n0:]:
                    o.name += ' [%s]' % ', '.join('%s: %s' % x for x in v.items())
            res.inlined = sorted(set(res.inlined) | ctx.inlined)
            for k, x in ctx.applied.items():
                res.applied[k] = res.applied.get(k, 0) + x
            res.loops += ctx.loop_log
            res.queries += ctx.pr.n_quick
            res.solver_s += ctx.pr.secs
            res.dual += ctx.pr.kept
            res.unsat += ctx.pr.n_unsat
            res.unknowns += ctx.pr.unknowns
    except Unsupported as e:
        res.unsupported = str(e)
    except SpecError as e:
        res.unsupported = 'contract: ' + str(e)
    except z3.Z3Exception as e:
        res.unsupported = 'solver: ' + str(e)
    res.time = time.time() - t0
    return res


# ---------------------------------------------------------------- two calls
def verify_roundtrip(pkg, cw, cr, bounded=None, noapply=()):
    """a write that fits, then the read of the same range: the bodies are
    composed, no contract of the two is assumed"""
    t0 = time.time()
    res = Result('%s ; %s' % (cw.id, cr.fname))
    try:
        S = setup(pkg, cw)
        ctx = S.ctx
        res.loc = '%s:%s' % (S.fn.file, S.fn.line)
        ctx.bounded = bounded
        ctx.apply.skip = noapply
        for e, x, al in S.conds:
            S.st.assume(bnot(x))
        if not ctx.pr.sat(S.st.pc):
            res.vacuous = True
        fr = pkg.method(cr.recv, cr.fname)
        if fr is None:
            raise Unsupported('function %s.%s does not exist' % (cr.recv, cr.fname))
        elem = cr.ret[1]
        w = SIZES[elem] * 8
        data = S.env.params['data']
        pre = ctx.ext_base(data.rid, ctx.regions[data.rid].elem)
        byname = {p.name: a for p, a in zip(cw.params, S.args[1:])}
        ch = Checker(S, res)
        outs = ctx.run(S.fn, S.args, S.st.fork())
        res.paths = len(outs)
        for o in outs:
            if not ctx.pr.sat(o.st.pc):
                continue
            if o.kind != 'ret':
                ch.ob('nopanic', 'a write that fits does not panic', o.st.pc, False)
                continue
            st = o.st.fork()
            if cw.next_of:
                f = list(st.cells[S.obj].f)
                f[S.ix['off']] = S.recv0.f[S.ix['off']]
                st.cells[S.obj] = StructV(st.cells[S.obj].t, f)
            args = [S.args[0]]
            o0 = None
            for (rn, pt), p in zip(fr.params[1:], cr.params):
                if p.name == 'n':
                    args.append(IV(64, True, 'i', data.len))
                elif p.type == '*':
                    el = ctx.ty(pt)['elem']
                    o0 = st.cells['out'] = ctx.fresh_value(el, 'out^', st)
                    if isinstance(o0, SliceV):
                        st.assume(ile(data.len, o0.len))
                    args.append(PtrV('out', (), el))
                else:
                    args.append(byname[p.name])
            ctx.spec = None
            saved, ctx.lock_obj = ctx.lock_obj, None
            outs2 = ctx.run(fr, args, st)
            ctx.lock_obj = saved
            for o2 in outs2:
                pc = o2.st.pc
                if not ctx.pr.sat(pc):
                    continue
                if o2.kind != 'ret':
                    ch.ob('nopanic', 'reading back the range does not panic', pc, False)
                    continue
                res.cover = True
                val = o2.st.cells['out'] if cr.mini else o2.val
                if isinstance(val, IfaceV):
                    val = val.v if ctx.same_type(val.dyn, '[]' + elem) else None
                if not isinstance(val, SliceV):
                    ch.ob('result', 'reading back gives a slice of %s' % elem, pc, False)
                    continue
                ch.ob('result', 'as many values are read back as were written', pc,
                      ile(data.len, val.len) if cr.mini else ieq(val.len, data.len))
                i = z3.Int(ctx.fresh('i'))
                ch.ob('result', 'the values read back are those written', pc,
                      o2.st.mem[val.rid].read(iadd(val.ptr, i)).bv() == pre.read(iadd(data.ptr, i)).bv(),
                      [i >= 0, i < zi(data.len)])
        res.inlined = sorted(ctx.inlined)
        res.applied = ctx.applied
        res.loops = ctx.loop_log
        res.queries = ctx.pr.n_quick
        res.solver_s = ctx.pr.secs
        res.dual += ctx.pr.kept
        res.unsat += ctx.pr.n_unsat
        res.unknowns = ctx.pr.unknowns
    except Unsupported as e:
        res.unsupported = str(e)
    except SpecError as e:
        res.unsupported = 'contract: ' + str(e)
    except z3.Z3Exception as e:
        res.unsupported = 'solver: ' + str(e)
    res.time = time.time() - t0
    return res


# ---------------------------------------------------------------- constructors
def verify_ctor(pkg, fname, recv):
    t0 = time.time()
    c = Contract()
    c.pkg, c.recv, c.name, c.params = pkg.tag, '', fname, []
    res = Result('%s.%s' % (pkg.tag, fname))
    try:
        fn = pkg.func(fname)
        if fn is None:
            raise Unsupported('function %s does not exist' % fname)
        res.loc = '%s:%s' % (fn.file, fn.line)
        S = Setup()
        S.pkg, S.fn, S.c = pkg, fn, c
        for ncase in (0, 1, 2):
            ctx = S.ctx = new_ctx(pkg)
            st = S.st = State()
            args = []
            out = None
            for rn, pt in fn.params:
                d = ctx.ty(pt)
                if d['k'] == 'ptr':
                    st.cells['out'] = Opaque('out^')
                    out = PtrV('out', (), d['elem'])
                    args.append(out)
                    bt = ctx.ty(d['elem'])['elem']
                elif d['k'] == 'slice':
                    sl = ctx.fresh_value(pt, 'slices', st)
                    args.append(sl)
                    ctx.ext(ctx.ty(d['elem'])['elem'], st)
                else:
                    raise Unsupported('parameter of ' + fname)
            if out is None:
                bt = ctx.ty(fn.results[0])['elem'] if isinstance(fn.results[0], str) else ctx.ty(fn.results[0]['t'])['elem']
            st.assume(ieq(sl.len, ncase) if ncase < 2 else zi(sl.len) >= 2)
            mem0 = dict(st.mem)
            S.buf, S.params, S.lock = sl, [], False
            cc = Concat(ctx, sl, mem0)
            st.assume(cc.Sf(0) == 0)
            ctx.spec = LoopSpec(None, None, cc)
            if ncase == 2:
                # assumed: the inputs together are no larger than memory can hold
                st.assume(cc.Sf(zi(sl.len)) <= MAXADDR)
            outs = ctx.run(fn, args, st.fork())
            res.paths += len(outs)
            ch = Checker(S, res)
            ch.model = lambda pcs, goal: (None, 'z3: not proved')
            if ncase == 2:
                cc.lemma(ch)
            tag = ('no', 'one', 'several')[ncase] + ' inputs: '
            for o in outs:
                pc = o.st.pc
                if not ctx.pr.sat(pc):
                    continue
                if o.kind != 'ret':
                    ch.ob('nopanic', tag + 'construction does not panic', pc, False)
                    continue
                res.cover = True
                p = o.st.cells['out'] if out else o.val
                if not isinstance(p, PtrV) or p.path or p.obj in S.st.cells and p.obj != 'out':
                    ch.ob('result', tag + 'returns a new buffer', pc, False)
                    continue
                v = o.st.cells[p.obj]
                t, d = struct_type(pkg, recv)
                ix = field_index(d)
                if not isinstance(v, StructV) or v.t != t:
                    ch.ob('result', tag + 'returns a new buffer', pc, False)
                    continue
                b = v.f[ix['buf']]
                ch.ob('field:off', tag + 'byte cursor is zero', pc, ieq(v.f[ix['off']].int(), 0))
                ch.ob('field:boff', tag + 'bit cursor is zero', pc, ieq(v.f[ix['boff']].int(), 0))
                ch.ob('wf', tag + 'capacity equals length', pc, ieq(v.f[ix['cap']].int(), b.len))
                ch.ob('wf', tag + 'bit capacity is eight times the length', pc, ieq(v.f[ix['bcap']].int(), simp_i(8 * zi(b.len))))
                if ncase == 0:
                    ch.ob('result', tag + 'empty', pc, ieq(b.len, 0))
                elif ncase == 1:
                    s0 = cc.el(0)
                    pc2 = pc + [zb(f) for f in ctx.slice_facts(s0)]
                    ch.ob('result', tag + 'length of the input', pc2, ieq(b.len, s0.len))
                    ch.ob('alias', tag + 'uses the input as storage', pc2,
                          bor(ieq(s0.len, 0), ieq(b.ptr, s0.ptr) if b.rid == s0.rid else False))
                else:
                    m = sl.len
                    pc2 = pc + [zb(f) for f in cc.facts(simp_i(zi(m) - 1))]
                    j = z3.Int(ctx.fresh('j'))
                    ch.ob('result', tag + 'length is the sum of the lengths', pc2, ieq(b.len, cc.S(m)))
                    ch.ob('content', tag + 'contents are the concatenation', pc2 + [j >= 0, j < zi(cc.S(m)), zb(cc.cat_fact(simp_i(zi(m) - 1), j))],
                          o.st.mem[b.rid].read(iadd(b.ptr, j)).bv() == cc.cat(j))
                    ch.ob('fresh', tag + 'storage of its own', pc2,
                          True if ctx.regions[b.rid].kind == 'fresh' else ieq(b.len, 0))
                ch.memory(o, 'frame', 'frame', None)
                ch.globals_same(o, 'frame')
                held = [k for k, x in o.st.locks.items() if x]
                ch.ob('lock', tag + 'no lock held on return', pc, not held)
            if ctx.term_fail:
                res.obls.append(Obl('term', 'termination: ' + ', '.join(sorted(set(ctx.term_fail))), 'failed', ''))
            else:
                res.obls.append(Obl('term', 'termination', 'proved'))
            res.inlined = sorted(set(res.inlined) | ctx.inlined)
            res.loops += ctx.loop_log
            res.queries += ctx.pr.n_quick
            res.solver_s += ctx.pr.secs
            res.dual += ctx.pr.kept
            res.unsat += ctx.pr.n_unsat
            res.unknowns += ctx.pr.unknowns
    except Unsupported as e:
        res.unsupported = str(e)
    except z3.Z3Exception as e:
        res.unsupported = 'solver: ' + str(e)
    res.time = time.time() - t0
    return res


# ---------------------------------------------------------------- other goroutines
class Rely:
    """what other goroutines may have done to the buffer whenever its lock was
    free: anything that keeps the invariant and does not shrink the buffer.
    They do not touch the arguments of the call."""

    def __init__(self, S, after):
        self.S, self.after, self.made = S, after, {}

    def havoc(self, st, tag, contents=True):
        S, ctx = self.S, self.S.ctx
        recv = st.cells[S.obj]
        f = list(recv.f)
        b = f[S.ix['buf']]
        rid = S.buf.rid
        m = self.made.get(tag)
        if m is None:
            mk = lambda n: z3.Int('rely_%s.%s' % (tag, n))
            m = self.made[tag] = ([mk(n) for n in ('off', 'boff', 'ptr', 'len', 'cap')],
                                  MBase(ctx.base_reader('rely_%s_m' % tag, ctx.regions[rid].elem)))
        (off, boff, ptr, ln, cp), hv = m
        for x in (off, boff):
            st.assume(z3.And(x >= -(1 << 63), x <= (1 << 63) - 1))
        if not contents:
            ptr, ln, cp = b.ptr, b.len, b.cap
        else:
            nb = SliceV(b.elem, rid, ptr, ln, cp, False)
            for x in ctx.slice_facts(nb):
                st.assume(x)
            st.assume(zi(b.len) <= ln)
            for p, v in S.params:
                if isinstance(v, IfaceV):
                    v = v.v
                if isinstance(v, SliceV) and v.rid == rid:
                    st.assume(z3.Or(zi(v.len) == 0, zi(v.ptr) + zi(v.len) <= ptr, ptr + cp <= zi(v.ptr)))
            f[S.ix['buf']] = nb
            f[S.ix['cap']] = IV(64, True, 'i', ln)
            f[S.ix['bcap']] = IV(64, True, 'i', simp_i(8 * ln))
            st.mem[rid] = MComp(st.mem[rid], in_range(ptr, ln, lambda k: hv.read(iadd(ptr, k))))
        f[S.ix['off']] = IV(64, True, 'i', off)
        f[S.ix['boff']] = IV(64, True, 'i', boff)
        st.cells[S.obj] = StructV(recv.t, f)

    def shot(self, st):
        return st.cells[self.S.obj], dict(st.mem)

    def acquire(self, st):
        k = len(st.sections)
        self.havoc(st, 'a%d' % k)
        a = self.shot(st)
        if k == 0 and self.S.ctx.spec is not None:
            self.S.ctx.spec.env = self.env(a)
        st.sections = st.sections + ((a, None),)

    def release(self, st):
        a, _ = st.sections[-1]
        st.sections = st.sections[:-1] + ((a, self.shot(st)),)
        if self.after:
            self.havoc(st, 'r%d' % (len(st.sections) - 1))

    def env(self, shot):
        S = self.S
        recv, mem = shot
        fields = {n: recv.f[S.ix[n]].int() for n in ('off', 'cap', 'boff', 'bcap')}
        return SymEnv(fields, recv.f[S.ix['buf']], mem, S.env.params)


def verify_atomic(pkg, c, bounded=None, noapply=()):
    """the effect of a call is the specified function of the state in which it
    acquired the lock, whatever other goroutines did before and after"""
    t0 = time.time()
    res = Result(c.id + ' (other goroutines)')
    try:
        S = setup(pkg, c)
        ctx = S.ctx
        ctx.bounded = bounded
        ctx.apply = None
        res.loc = '%s:%s' % (S.fn.file, S.fn.line)
        if ctx.lock_obj is None:
            raise Unsupported('the buffer has no lock')
        # a byte, or the integers of the oldest version, may be taken from the
        # storage once the lock is free again
        ctx.rely = Rely(S, not (c.fname == 'ReadByte' or c.pkg == 'v1' and 'typed' in c.groups))
        if not ctx.pr.sat(S.st.pc):
            res.vacuous = True
        outs = ctx.run(S.fn, S.args, S.st.fork())
        res.paths = len(outs)
        ch = Atomic(S, res)
        for o in outs:
            if not ctx.pr.sat(o.st.pc):
                continue
            if o.kind == 'ret':
                res.cover = True
                ch.returned(o)
            elif o.kind == 'panic':
                if any(al and x is True for e, x, al in S.conds):
                    res.cover = True
                ch.panicked(o)
            else:
                raise Unsupported('outcome ' + o.kind)
        res.inlined = sorted(ctx.inlined)
        res.loops = ctx.loop_log
        res.queries = ctx.pr.n_quick
        res.solver_s = ctx.pr.secs
        res.dual += ctx.pr.kept
        res.unsat += ctx.pr.n_unsat
        res.unknowns = ctx.pr.unknowns
    except Unsupported as e:
        res.unsupported = str(e)
    except SpecError as e:
        res.unsupported = 'contract: ' + str(e)
    except z3.Z3Exception as e:
        res.unsupported = 'solver: ' + str(e)
    for o in res.obls:
        o.kind = 'atomic'
    res.time = time.time() - t0
    return res


class Atomic(Checker):
    def model(self, pcs, goal):
        return None, 'z3: not proved'

    def conds(self, env):
        c = self.S.c
        return [env.ev(x) for e, x, al in c.panics] + [env.ev(x) for x in c.maypanics]

    def sections(self, o):
        r = self.ctx.rely
        out = [(a, b or r.shot(o.st)) for a, b in o.st.sections]
        return [(a, b, r.env(a)) for a, b in out]

    def same(self, pc, a, b, what):
        """a section that changes nothing"""
        for n in ('off', 'boff'):
            self.ob('atomic', '%s cursor %s' % (n, what), pc, self.eqf(a, b, n))
        self.ob('atomic', 'size ' + what, pc, ieq(self.buf(b).len, self.buf(a).len))
        self.contents_same(pc, a, b, what)

    def eqf(self, a, b, n):
        i = self.S.ix[n]
        return ieq(b[0].f[i].int(), a[0].f[i].int())

    def buf(self, a):
        return a[0].f[self.S.ix['buf']]

    def contents_same(self, pc, a, b, what):
        rid = self.S.buf.rid
        if a[1][rid] is b[1][rid]:
            self.trivially('atomic', 'contents ' + what)
            return
        x = z3.Int(self.ctx.fresh('x'))
        self.ob('atomic', 'contents ' + what, pc, veq(b[1][rid].read(x), a[1][rid].read(x)))

    def panicked(self, o):
        S = self.S
        secs = self.sections(o)
        if not secs:
            return               # rejected without the lock
        rejected = bor(*([x for e, x, al in S.conds] + S.may + self.conds(secs[0][2])))
        self.ob('atomic', 'a call whose arguments fit does not panic, whatever other goroutines do', o.st.pc, rejected)
        if S.c.onpanic:
            return
        for a, b, env in secs:
            self.same(o.st.pc, a, b, 'unchanged on panic')

    def returned(self, o):
        S, c, ctx = self.S, self.S.c, self.ctx
        o = Outcome(o.kind, o.st.fork(), o.val, None)
        for x in [x for e, x, al in S.conds] + S.may:
            o.st.assume(zb(bnot(x)))
        st = o.st
        if not st.sections:
            # no critical section: it may not have needed the state at all
            ctx.rely.acquire(st)
            ctx.rely.release(st)
        secs = self.sections(o)
        for a, b, env in secs[:1]:
            for x in self.conds(env):
                st.assume(zb(bnot(x)))
        pc = st.pc
        if not ctx.pr.sat(pc):
            return
        # what is returned
        saved = S.env, S.buf
        S.env, S.buf = secs[0][2], self.buf(secs[0][0])
        try:
            self.result(o, [])
        finally:
            S.env, S.buf = saved
        # the cursors
        sets = dict(c.sets)
        for n in ('off', 'boff'):
            moved = [k for k, (a, b, e) in enumerate(secs) if simp_b(self.eqf(a, b, n)) is not True]
            if n not in sets:
                for k in moved:
                    self.ob('atomic', '%s cursor unchanged' % n, pc, self.eqf(secs[k][0], secs[k][1], n))
                continue
            if len(moved) > 1:
                self.ob('atomic', 'the %s cursor is set in one critical section' % n, pc, False)
            a, b, e = secs[moved[0] if moved else 0]
            self.ob('atomic', '%s cursor computed from the state under the lock' % n, pc,
                    ieq(b[0].f[S.ix[n]].int(), as_int(e.ev(sets[n]))))
        # the contents
        rid = S.buf.rid

        def touched(a, b):
            x, y = self.buf(a), self.buf(b)
            return a[1][rid] is not b[1][rid] or x.rid != y.rid or not all(simp_b(ieq(p, q)) is True for p, q in ((x.ptr, y.ptr), (x.len, y.len)))
        act = [k for k, (a, b, e) in enumerate(secs) if touched(a, b)]
        main = act[0] if act else 0
        for k in act[1:]:
            self.same_contents_only(pc, secs[k][0], secs[k][1])
        a, b, env = secs[main]
        ba, bb = self.buf(a), self.buf(b)
        i = z3.Int(ctx.fresh('i'))
        rd = lambda k: b[1][bb.rid].read(iadd(bb.ptr, k))
        old = lambda k: a[1][ba.rid].read(iadd(ba.ptr, k))
        if c.grow is not None:
            n = as_int(env.ev(c.grow))
            self.ob('atomic', 'length grows by exactly n', pc, ieq(bb.len, iadd(ba.len, n)))
            self.ob('atomic', 'bytes held under the lock are kept', pc, veq(rd(i), old(i)), [i >= 0, i < zi(ba.len)])
            self.ob('atomic', 'new bytes are zero', pc, rd(i).bv() == 0, [i >= zi(ba.len), i < zi(ba.len) + zi(n)])
        elif c.rebuf:
            lo, hi = as_int(env.ev(c.rebuf[0])), as_int(env.ev(c.rebuf[1]))
            self.ob('atomic', 'remaining length', pc, ieq(bb.len, isub(hi, lo)))
            self.ob('atomic', 'remaining bytes', pc, veq(rd(i), old(iadd(lo, i))), [i >= 0, i < zi(isub(hi, lo))])
        else:
            self.ob('atomic', 'storage kept', pc, bb.rid == ba.rid and band(ieq(bb.ptr, ba.ptr), ieq(bb.len, ba.len)))
            node = a[1][rid]
            for wr in c.writes:
                node = env.write_node(wr, node)
            if node is b[1][rid]:
                self.trivially('atomic', 'contents under the lock')
            else:
                x = z3.Int(ctx.fresh('x'))
                self.ob('atomic', 'contents are the specified change of those under the lock', pc, veq(b[1][rid].read(x), node.read(x)))
        last = secs[-1][1]
        self.ob('atomic', 'capacity equals length', pc, ieq(last[0].f[S.ix['cap']].int(), self.buf(last).len))
        self.ob('atomic', 'bit capacity is eight times the length', pc,
                ieq(last[0].f[S.ix['bcap']].int(), simp_i(8 * zi(self.buf(last).len))))

    def same_contents_only(self, pc, a, b):
        self.ob('atomic', 'the contents change in one critical section', pc, ieq(self.buf(b).len, self.buf(a).len))
        self.contents_same(pc, a, b, 'change in one critical section')


# ---------------------------------------------------------------- models to runs
LIM = 1 << 16


def ival(m, x):
    if is_c(x):
        return x
    return m.eval(x, model_completion=True).as_long()


def bval(m, x):
    if isinstance(x, bool):
        return x
    return z3.is_true(m.eval(x, model_completion=True))


def elem_bits(m, node, a):
    return m.eval(node.read(a).bv(), model_completion=True).as_long()


def case_of(S, m):
    """a concrete run of the real function from a model of the negated obligation"""
    c = S.c
    blen, bcap, bptr = ival(m, S.buf.len), ival(m, S.buf.cap), ival(m, S.buf.ptr)
    if bcap > LIM:
        bcap = max(blen, min(bcap, LIM))
    if blen > LIM:
        raise ValueError('buffer of %d bytes' % blen)
    # address ranges in byte memory
    spans = [(bptr, bcap)]
    params = [(p, v.v if isinstance(v, IfaceV) and isinstance(v.v, SliceV) else v) for p, v in S.params]
    for p, v in params:
        if isinstance(v, SliceV) and v.rid == S.buf.rid:
            cp, ln = ival(m, v.cap), ival(m, v.len)
            if ln > LIM:
                raise ValueError('slice of %d bytes' % ln)
            spans.append((ival(m, v.ptr), min(cp, LIM)))
    # merge overlapping or near spans, lay clusters out one after the other
    order = sorted(set(spans))
    clusters = []
    for lo, n in order:
        if clusters and lo <= clusters[-1][1] + 16:
            clusters[-1][1] = max(clusters[-1][1], lo + n)
        else:
            clusters.append([lo, lo + n])
    base, at = [], 32
    for lo, hi in clusters:
        base.append((lo, hi, at))
        at += (hi - lo) + 32
    place = lambda a: next(o + a - lo for lo, hi, o in base if lo <= a <= hi)
    arena = [(i * 37 + 11) & 255 for i in range(at)]
    pre = S.env.mem[S.buf.rid]
    for lo, hi, o in base:
        for a in range(lo - 8, hi + 8):
            arena[o + a - lo] = elem_bits(m, pre, a)
    case = {'fn': c.fname, 'recv': c.recv, 'arena': bytes(arena).hex(),
            'buf': [place(bptr), blen, bcap]}
    for n in ('off', 'cap', 'boff', 'bcap'):
        case[n] = ival(m, S.fields[n])
    args = []
    for p, v in params:
        args.append(arg_of(S, m, p, v, place))
    case['args'] = args
    return case


def arg_of(S, m, p, v, place):
    if isinstance(v, IV):
        return {'k': 'i', 'v': m.eval(v.bv(), model_completion=True).as_long() if v.rep == 'b' else ival(m, v.v)}
    if isinstance(v, BoolV):
        return {'k': 'b', 'v': bval(m, v.v)}
    if isinstance(v, IfaceV) and v.dyn.startswith('?'):
        return {'k': 'str'} if p.type == 'interface' else {'k': 'bo', 'v': 'PANIC'}
    if isinstance(v, IfaceV):
        return {'k': 'bo', 'v': 'LE' if 'little' in v.dyn else 'BE'}
    if isinstance(v, SliceV):
        ln = ival(m, v.len)
        if v.rid == S.buf.rid:
            return {'k': 'as', 'p': [place(ival(m, v.ptr)), ln, min(ival(m, v.cap), LIM)]}
        if ln > LIM:
            raise ValueError('slice of %d elements' % ln)
        pre = S.env.mem[v.rid]
        a = ival(m, v.ptr)
        return {'k': 's', 't': S.ctx.under(v.elem), 'v': [elem_bits(m, pre, a + i) for i in range(ln)]}
    return {'k': 'nil'}
