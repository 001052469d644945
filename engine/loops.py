"""Loops: every loop is either unrolled completely (trip count decided by the
path condition) or replaced by an inductive summary.

A summary describes the state at the start of iteration k (k >= 0, ghost).
Candidate descriptions are guessed - constant and affine values from a probing
run of the body, memory from the stores the body makes or from the contract's
own postcondition restricted to the first or last k elements, and "the guard of
the previous iteration held" - and every one of them is then proved inductive
with the exact semantics.  A candidate that is not proved is dropped; what is
left undescribed is arbitrary."""
import z3
from vals import *
from sym import *

DEBUG = False


def resume(ctx, outer_active, outs):
    res = []
    for o in outs:
        if o.kind == 'exit':
            f = o.fr
            f.active = outer_active
            res.extend(ctx.goto(f, o.st, o.edge[0], o.edge[1]))
        else:
            res.append(o)
    return res


def body(ctx, fr, st, H, pv):
    return ctx.enter(fr.fork(), st.fork(), H, pv)


def unroll_decided(ctx, fr, st, H, pv, limit=72, few=2):
    """complete unrolling: every iteration decided by the path condition, or a
    loop that cannot go round more than `few` times"""
    cur = [(fr, st, pv)]
    done = []
    both = False
    for k in range(limit):
        backs, rest = [], []
        for (f, s, p) in cur:
            for o in body(ctx, f, s, H, p):
                (backs if o.kind == 'back' else rest).append(o)
        both = both or backs and any(o.kind in ('exit', 'ret') for o in rest)
        if backs and both and (k >= few or ctx.optimistic > 1):
            return None
        done.extend(rest)
        if not backs:
            return done
        if len(backs) > 4:
            return None
        cur = [(o.fr, o.st, o.val) for o in backs]
    return None


def unroll_bounded(ctx, fr, st, H, pv, limit):
    cur = [(fr, st, pv)]
    done = []
    for it in range(limit + 1):
        backs = []
        for (f, s, p) in cur:
            for o in body(ctx, f, s, H, p):
                (backs if o.kind == 'back' else done).append(o)
        if not backs:
            return done
        cur = [(o.fr, o.st, o.val) for o in backs]
        if len(cur) > 64:
            break
    ctx.cut += 1
    return done


# ------------------------------------------------------------------ slots
def gen(ctx, v, name, rep):
    """an arbitrary value of v's shape (no range facts)"""
    if isinstance(v, IV):
        r = rep if rep else v.rep
        if r == 'i':
            return IV(v.w, v.s, 'i', z3.Int(ctx.fresh(name)), v.fl)
        return IV(v.w, v.s, 'b', z3.BitVec(ctx.fresh(name), v.w), v.fl)
    if isinstance(v, BoolV):
        return BoolV(z3.Bool(ctx.fresh(name)))
    if isinstance(v, SliceV):
        return SliceV(v.elem, v.rid, z3.Int(ctx.fresh(name + '.p')), z3.Int(ctx.fresh(name + '.l')),
                      z3.Int(ctx.fresh(name + '.c')), v.nil)
    if isinstance(v, StructV):
        return StructV(v.t, [gen(ctx, f, name + '.%d' % k, None) for k, f in enumerate(v.f)])
    return v


def range_facts(v):
    if isinstance(v, IV) and v.rep == 'i' and not is_c(v.v):
        return [z3.And(v.v >= v.lo(), v.v <= v.hi())]
    if isinstance(v, SliceV):
        return [f for f in (ile(0, v.len), ile(v.len, v.cap), ile(v.cap, MAXADDR)) if f is not True]
    if isinstance(v, StructV):
        out = []
        for f in v.f:
            out += range_facts(f)
        return out
    return []


def leaves(v, path=()):
    """(path, scalar) pairs; ints as IV, slice components as raw terms"""
    if isinstance(v, StructV):
        out = []
        for k, f in enumerate(v.f):
            out += leaves(f, path + (k,))
        return out
    if isinstance(v, SliceV):
        return [(path + ('p',), v.ptr), (path + ('l',), v.len), (path + ('c',), v.cap)]
    return [(path, v)]


def rebuild(v, vals, path=()):
    if isinstance(v, StructV):
        return StructV(v.t, [rebuild(f, vals, path + (k,)) for k, f in enumerate(v.f)])
    if isinstance(v, SliceV):
        return SliceV(v.elem, v.rid, vals[path + ('p',)], vals[path + ('l',)], vals[path + ('c',)], v.nil)
    return vals[path]


def symbols(t, acc, seen):
    """names of uninterpreted constants and functions in a term"""
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            stack.extend(x.children())


def syms_of(t):
    acc = set()
    if isinstance(t, (int, bool)):
        return acc
    if isinstance(t, IV):
        return syms_of(t.v)
    if isinstance(t, BoolV):
        return syms_of(t.v)
    if isinstance(t, SliceV):
        for x in (t.ptr, t.len, t.cap, t.nil):
            acc |= syms_of(x)
        return acc
    if isinstance(t, V):
        return {'?!999999999'}
    symbols(t, acc, set())
    return acc


def number(name):
    # "x!12" and "r!12_m" were created at counter value 12
    p = name.rfind('!')
    if p < 0:
        return -1
    q = p + 1
    while q < len(name) and name[q].isdigit():
        q += 1
    return int(name[p + 1:q]) if q > p + 1 else -1


def fresh_after(names, mark, allow):
    return any(number(n) > mark and n not in allow for n in names)


def subst(v, k, e):
    """v with the ghost counter k replaced by e"""
    if isinstance(v, (int, bool)):
        return v
    if isinstance(v, IV):
        if is_c(v.v) if v.rep == 'i' else False:
            return v
        return IV(v.w, v.s, v.rep, subst(v.v, k, e), v.fl)
    if isinstance(v, BoolV):
        return BoolV(subst(v.v, k, e))
    if isinstance(v, SliceV):
        return SliceV(v.elem, v.rid, subst(v.ptr, k, e), subst(v.len, k, e), subst(v.cap, k, e), subst(v.nil, k, e))
    if isinstance(v, V):
        raise Unsupported('substitution')
    return z3.substitute(v, (k, zi(e)))


def term_of(l):
    """integer term of a leaf, or None"""
    if isinstance(l, IV):
        return l.v if l.rep == 'i' else None
    if isinstance(l, (int, z3.ArithRef)):
        return l
    return None


def leaf_eq(a, b):
    if isinstance(a, V) or isinstance(b, V):
        return veq(a, b)
    return ieq(a, b)


def writes_between(end, start, limit=64):
    """addresses written in end relative to start, oldest first; None if unknown"""
    out = []
    n = end
    while n is not start:
        if isinstance(n, MStore):
            out.append(n.addr)
            n = n.parent
        elif isinstance(n, MComp) and n.note and n.note[0] == 'range' and is_c(n.note[2]) and n.note[2] <= 16:
            for k in reversed(range(n.note[2])):
                out.append(iadd(n.note[1], k))
            n = n.parent
        else:
            return None
        if len(out) > limit:
            return None
    out.reverse()
    res = []
    for a in out:
        if not any(simp_b(ieq(a, b)) is True for b in res):
            res.append(a)
    return res


def hard(ctx, pc, goal):
    """an inductive step: quick attempt, then a fresh solver"""
    if isinstance(goal, bool):
        if goal:
            return True
        return not ctx.pr.sat(pc)
    goal = simp_b(goal)
    if goal is True:
        return True
    return ctx.pr.prove_full(pc, goal)


def run_loop(ctx, fr, st, H, pv, loop):
    outer = fr.active
    fr = fr.fork()
    fr.active = outer + ((H, loop.body),)
    ndef = len(fr.defers)
    r = unroll_decided(ctx, fr, st, H, pv)
    if r is None and ctx.bounded is not None:
        r = unroll_bounded(ctx, fr, st, H, pv, ctx.bounded)
    if r is None:
        r = summarise(ctx, fr, st, H, pv)
    return resume(ctx, outer, r)


def summarise(ctx, fr, st, H, pv):
    fnname = fr.fn.name
    pos = next((i.get('pos') for i in fr.fn.blocks[H]['instrs'] if i.get('pos')), None)
    loopname = '%s loop@%s' % (fnname, H)
    # ---- 1. what does the body modify?
    slots = {('phi', r): v for r, v in pv.items()}
    reps = {}
    modregs = set()
    slot_changed = {}
    for rnd in range(6):
        mark = ctx.n
        s = st.fork()
        cur = {}
        for key, v0 in slots.items():
            if v0 is None:
                raise Unsupported('undefined phi operand')
            cur[key] = gen(ctx, v0, key[1], reps.get(key))
            if key[0] == 'cell':
                s.cells[key[1]] = cur[key]
        for rid in modregs:
            s.mem[rid] = MBase(ctx.base_reader(ctx.fresh('hv'), ctx.regions[rid].elem))
        pv1 = {k[1]: cur[k] for k in slots if k[0] == 'phi'}
        ctx.optimistic += 1
        try:
            outs = body(ctx, fr, s, H, pv1)
        finally:
            ctx.optimistic -= 1
        backs = [o for o in outs if o.kind == 'back']
        if not backs:
            return body(ctx, fr, st, H, pv)
        grew = False
        for o in backs:
            for obj, v in o.st.cells.items():
                if obj in s.cells and ('cell', obj) not in slots and not vsame(v, s.cells[obj]):
                    if s.cells[obj] is not st.cells.get(obj):
                        continue
                    slots[('cell', obj)] = st.cells[obj]
                    grew = True
            for rid, node in o.st.mem.items():
                if rid in st.mem and rid not in modregs and node is not s.mem[rid]:
                    modregs.add(rid)
                    grew = True
            for key in slots:
                if key in cur:
                    new = o.val[key[1]] if key[0] == 'phi' else o.st.cells[key[1]]
                    if isinstance(new, IV) and isinstance(cur[key], IV) and new.rep == 'b' and cur[key].rep == 'i' \
                            and new.const() is None and reps.get(key) != 'b':
                        reps[key] = 'b'
                        grew = True
        if not grew:
            break
    else:
        raise Unsupported('loop footprint does not settle')

    probe = Probe(ctx, st, slots, cur, backs, mark)
    logs = (ctx.extra_bad, ctx.term_fail, ctx.loop_log)
    lens = [len(x) for x in logs]
    out, vague = attempt(ctx, fr, st, H, pv, loopname, slots, reps, modregs, cur, backs, probe, False)
    if vague:
        first = [x[n:] for x, n in zip(logs, lens)]
        for x, n in zip(logs, lens):
            del x[n:]
        try:
            out, _ = attempt(ctx, fr, st, H, pv, loopname, slots, reps, modregs, cur, backs, probe, True)
        except Unsupported:
            for x, n, y in zip(logs, lens, first):
                x[n:] = y
    return out


class Probe:
    """what one run of the body from an arbitrary state says about the integers
    it carries along: the comparisons it decides and how they change"""

    def __init__(self, ctx, st, slots, cur, backs, mark):
        self.first, self.syms, self.fixed, self.news = {}, {}, [], [{} for _ in backs]
        for key, v0 in slots.items():
            new = [(o.val[key[1]] if key[0] == 'phi' else o.st.cells[key[1]]) for o in backs]
            if not all(same_shape(v0, n) for n in new):
                continue
            lc = dict(leaves(cur[key]))
            lns = [dict(leaves(n)) for n in new]
            for path, a0 in leaves(v0):
                if isinstance(a0, IV) and not (a0.w == 64 and a0.s):
                    continue
                t0, tc, ts = term_of(a0), term_of(lc[path]), [term_of(n[path]) for n in lns]
                if t0 is None or tc is None or is_c(tc) or any(t is None for t in ts):
                    continue
                if all(simp_b(ieq(t, tc)) is True for t in ts):
                    self.fixed.append((tc, zi(t0)))
                    continue
                k = (key, path)
                self.first[k], self.syms[k] = t0, tc
                for d, t in zip(self.news, ts):
                    d[k] = t
        names = {t.decl().name() for t in self.syms.values()}
        self.atoms, self.ne = [], []
        seen = set()
        nb = len(st.pc)
        for o in backs:
            work = list(o.st.pc[nb:])
            while work:
                f = work.pop()
                neg = False
                while z3.is_not(f):
                    f, neg = f.arg(0), not neg
                if z3.is_and(f) or z3.is_or(f):
                    work.extend(f.children())
                    continue
                if not z3.is_app(f) or f.num_args() != 2 or not z3.is_int(f.arg(0)):
                    continue
                eq = z3.is_eq(f) or z3.is_distinct(f)
                if not eq and comparison(f) is None:
                    continue
                e = f.arg(0) - f.arg(1)
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if self.fixed:
                    e = z3.substitute(e, *self.fixed)
                if fresh_after(syms_of(e), mark, names) or not (syms_of(e) & names):
                    continue
                (self.ne if eq else self.atoms).append(e)

    def at(self, e, lv):
        return z3.substitute(e, *[(t, zi(lv[k])) for k, t in self.syms.items() if k in lv])

    def terms(self, slots, value):
        """the integers carried along, given the value of every slot"""
        lv = {}
        for key in slots:
            if any(k[0] == key for k in self.syms):
                l = dict(leaves(value(key)))
                for k in self.syms:
                    if k[0] == key:
                        x = l[k[1]]
                        lv[k] = x.int() if isinstance(x, IV) else x
        return lv

    def facts(self, rel, vague):
        """candidate invariants over the integers carried along"""
        out = []
        for e in self.ne + (self.atoms if rel else []):
            out.append(lambda lv, e=e: self.at(e, lv) >= 0)
            out.append(lambda lv, e=e: self.at(e, lv) <= 0)
        if not rel:
            return out
        ks = [k for k in self.syms if k in vague]
        for k in ks:
            out.append(lambda lv, k=k: zi(lv[k]) >= zi(self.first[k]))
            out.append(lambda lv, k=k: zi(lv[k]) <= zi(self.first[k]))
        for i, a in enumerate(ks):
            for b in ks[:i]:
                da = [zi(n[a]) - self.syms[a] for n in self.news]
                db = [zi(n[b]) - self.syms[b] for n in self.news]
                if all(is_c(simp_i(x - y)) and simp_i(x - y) == 0 for x, y in zip(da, db)):
                    out.append(lambda lv, a=a, b=b: zi(lv[a]) - zi(lv[b]) == zi(self.first[a]) - zi(self.first[b]))
                elif all(is_c(simp_i(x + y)) and simp_i(x + y) == 0 for x, y in zip(da, db)):
                    out.append(lambda lv, a=a, b=b: zi(lv[a]) + zi(lv[b]) == zi(self.first[a]) + zi(self.first[b]))
        return out

    def progress(self, anchors):
        """what the number of steps done may be, in terms of the integers carried along"""
        out, seen = [], set()

        def add(f):
            e = str(simp_i(f(self.syms)))
            if e not in seen:
                seen.add(e)
                out.append(f)
        for k in self.syms:
            add(lambda lv, k=k: simp_i(zi(lv[k]) - zi(self.first[k])))
            add(lambda lv, k=k: simp_i(zi(self.first[k]) - zi(lv[k])))
        for k in self.syms:
            if is_c(self.first[k]):
                add(lambda lv, k=k: lv[k])
            for a in anchors:
                add(lambda lv, k=k, a=a: simp_i(zi(lv[k]) - zi(a)))
                add(lambda lv, k=k, a=a: simp_i(zi(a) - zi(lv[k])))
        return out

    def decreases(self, ctx, o, lv, new):
        """some compared distance is non-negative and gets smaller"""
        for e in self.atoms + self.ne:
            for x in (e, -e):
                a, b = self.at(x, lv), self.at(x, new)
                if hard(ctx, o.st.pc, z3.And(a >= 0, b < a)):
                    return True
        return False


def attempt(ctx, fr, st, H, pv, loopname, slots, reps, modregs, cur, backs, probe, rel):
    """one try at a summary; with rel also by invariants that relate the
    variables to each other.  Returns the outcomes and whether much is left open"""

    # ---- 2. per-leaf candidates
    slice_slots = {}
    guessed = set()
    cands = {}           # (key, path) -> list of (tag, fn K -> leaf)
    for key, v0 in slots.items():
        news = [(o.val[key[1]] if key[0] == 'phi' else o.st.cells[key[1]]) for o in backs]
        shape_ok = all(same_shape(v0, n) for n in news)
        if not shape_ok:
            sl = slice_template(ctx, st, key, v0, news) or grow_template(ctx, st, key, v0, cur[key], news)
            if sl is not None and not private(fr, st, H, key, v0):
                raise Unsupported('a growing slice that others refer to')
            if sl is None:
                if all(vsame(n, cur[key]) for n in news):
                    cands[(key, None)] = v0
                    continue
                raise Unsupported('loop-carried value of changing shape')
            slice_slots[key] = sl
            continue
        l0 = dict(leaves(v0))
        lc = dict(leaves(cur[key]))
        lns = [dict(leaves(n)) for n in news]
        for path, a0 in l0.items():
            cl = []
            c = lc[path]
            if all(simp_b(leaf_eq(n[path], c)) is True for n in lns):
                cl.append(('const', (lambda a0: lambda K: a0)(a0)))
            else:
                tc = term_of(c)
                ts = [term_of(n[path]) for n in lns]
                if tc is not None and term_of(a0) is not None and all(t is not None for t in ts):
                    ds = [simp_i(zi(t) - zi(tc)) for t in ts]
                    if all(is_c(d) for d in ds) and len(set(ds)) == 1 and ds[0] != 0:
                        cl.append(('affine', affine(a0, ds[0])))
                if ctx.spec is not None and isinstance(a0, IV):
                    for f in ctx.spec.value_candidates(ctx, a0, l0, st):
                        cl.append(('spec', f))
                        if ctx.spec.contents and not a0.s:
                            guessed.add((key, path))
                if rel and ctx.spec is not None and isinstance(a0, IV) and a0.w == 64 and (key, path) not in probe.syms:
                    for e in probe.progress(ctx.spec.anchors()):
                        for f in ctx.spec.value_candidates(ctx, a0, l0, st):
                            cl.append(('rel', lambda lv, e=e, f=f: f(e(lv))))
            cl.append(('havoc', None))
            cands[(key, path)] = cl

    # base step of the spec-derived candidates
    for k, cl in cands.items():
        if k[1] is None:
            continue
        a0 = dict(leaves(slots[k[0]]))[k[1]]
        keep = []
        for tag, f in cl:
            if tag == 'spec' and not hard(ctx, st.pc, leaf_eq(f(0), a0)):
                continue
            if tag == 'rel' and not hard(ctx, st.pc, leaf_eq(f(probe.first), a0)):
                continue
            keep.append((tag, f))
        cands[k] = keep

    # ---- 3. second probe at symbolic iteration k: guard and store pattern
    mark = ctx.n
    K = z3.Int(ctx.fresh('k'))
    s = st.fork()
    s.assume(K >= 0)
    val = {}
    for key, v0 in slots.items():
        val[key] = build(ctx, key, v0, cands, slice_slots, K, s, 0, probe=True)
        if key[0] == 'cell':
            s.cells[key[1]] = val[key]
    base_len = len(s.pc)
    for rid in modregs:
        pass                         # reads see the memory before the loop
    ctx.optimistic += 1
    try:
        outs = body(ctx, fr, s, H, {k[1]: val[k] for k in slots if k[0] == 'phi'})
    finally:
        ctx.optimistic -= 1
    backs = [o for o in outs if o.kind == 'back']
    allow = {K.decl().name()}
    guards = []
    for o in backs:
        lits = []
        for f in o.st.pc[base_len:]:
            if not fresh_after(syms_of(f), mark, allow):
                lits.append(f)
        guards.append(lits)
    G = z3.simplify(z3.Or(*[z3.And(*l) if l else z3.BoolVal(True) for l in guards])) if guards else None
    if G is not None and z3.is_true(G):
        G = None
    memc = {}
    for rid in modregs:
        cl = []
        t2 = store_pattern(ctx, st, rid, backs, base_len, K, mark, allow)
        if t2 is not None:
            cl.append(('stores', t2))
        if ctx.spec is not None:
            for f in ctx.spec.mem_candidates(ctx, rid, st):
                # base step: with no iterations done it must be the memory at loop entry
                x = z3.Int(ctx.fresh('x'))
                if hard(ctx, st.pc, veq(f(0).read(x), st.mem[rid].read(x))):
                    cl.append(('spec', f))
            if rel:
                for e in probe.progress(ctx.spec.anchors()):
                    for f in ctx.spec.part_candidates(ctx, rid):
                        g = (lambda lv, e=e, f=f: f(e(lv)))
                        x = z3.Int(ctx.fresh('x'))
                        if hard(ctx, st.pc, veq(g(probe.first).read(x), st.mem[rid].read(x))):
                            cl.append(('rel', g))
        cl.append(('havoc', None))
        memc[rid] = cl
    # a comparison that need not hold on entry is kept as "if it held on entry"
    facts = [f if hard(ctx, st.pc, f(probe.first)) else (lambda lv, f=f: z3.Implies(f(probe.first), f(lv)))
             for f in probe.facts(rel, {k for k, cl in cands.items() if cl[0][0] in ('havoc', 'rel')})]

    for key, sl in slice_slots.items():
        if not sl.learn(ctx, [(o, o.val[key[1]] if key[0] == 'phi' else o.st.cells[key[1]]) for o in backs], base_len, K, mark, allow):
            sl.forget()

    # ---- 4. prove, dropping what is not inductive
    for rnd in range(80 if rel else 40):
        s = st.fork()
        K = z3.Int(ctx.fresh('k'))
        s.assume(K >= 0)
        g_at = lambda e: z3.substitute(G, (Kg, zi(e)))
        Kg = z3.Int([n for n in allow][0])
        val = {}
        for key, v0 in slots.items():
            val[key] = build(ctx, key, v0, cands, slice_slots, K, s, 0)
        lv = probe.terms(slots, lambda key: val[key])
        for (key, path), cl in cands.items():
            if path is not None and cl[0][0] == 'rel':
                val[key] = rebuild(slots[key], {**dict(leaves(val[key])), path: cl[0][1](lv)})
        for key in slots:
            if key[0] == 'cell':
                s.cells[key[1]] = val[key]
            for f in range_facts(val[key]):
                s.assume(f)
        for f in facts:
            s.assume(f(lv))
        if ctx.spec is not None:
            for f in ctx.spec.iter_facts(K):
                s.assume(f)
        if G is not None:
            s.assume(z3.Or(K == 0, z3.And(g_at(z3.IntVal(0)), g_at(K - 1))))
        for rid in modregs:
            tag, f = memc[rid][0]
            if tag == 'havoc':
                s.mem[rid] = MBase(ctx.base_reader(ctx.fresh('hv'), ctx.regions[rid].elem))
            else:
                s.mem[rid] = f(lv if tag == 'rel' else K)
        nb = len(s.pc)
        saved_bad = len(ctx.extra_bad)
        outs = body(ctx, fr, s, H, {k[1]: val[k] for k in slots if k[0] == 'phi'})
        backs = [o for o in outs if o.kind == 'back']
        dropped = False
        news = []
        for o in backs:
            pc = o.st.pc
            if not ctx.pr.sat(pc):
                news.append(lv)
                continue
            vals = {key: (o.val[key[1]] if key[0] == 'phi' else o.st.cells[key[1]]) for key in slots}
            nv = probe.terms([key for key in slots if key not in slice_slots and same_shape(slots[key], vals[key])], lambda key: vals[key])
            news.append(nv)
            n = len(facts)
            facts = [f for f in facts if len(nv) == len(lv) and hard(ctx, pc, f(nv))]
            if len(facts) != n:
                dropped = True
                break
            for key in slots:
                new = o.val[key[1]] if key[0] == 'phi' else o.st.cells[key[1]]
                if key in slice_slots:
                    if not slice_slots[key].step(ctx, o.st, new, K):
                        if not slice_slots[key].forget():
                            raise Unsupported('loop-carried slice not described by the contract')
                        dropped = True
                    continue
                if (key, None) in cands:
                    if not vsame(new, val[key]):
                        raise Unsupported('loop-carried value of changing shape')
                    continue
                if not same_shape(slots[key], new):
                    raise Unsupported('loop-carried value of changing shape')
                ln = dict(leaves(new))
                for path in ln:
                    cl = cands[(key, path)]
                    tag, f = cl[0]
                    if tag == 'havoc':
                        continue
                    want = f(nv) if tag == 'rel' else f(K + 1)
                    if not hard(ctx, pc, leaf_eq(ln[path], want)):
                        cl.pop(0)
                        dropped = True
            for rid in modregs:
                tag, f = memc[rid][0]
                if tag == 'havoc':
                    continue
                x = z3.Int(ctx.fresh('x'))
                px = pc + (ctx.spec.point_facts(K, x) if ctx.spec is not None and tag == 'spec' else [])
                if not hard(ctx, px, veq(o.st.mem[rid].read(x), f(nv if tag == 'rel' else K + 1).read(x))):
                    if DEBUG:
                        print('drop mem', rid, tag)
                    memc[rid].pop(0)
                    dropped = True
            for rid, node in o.st.mem.items():
                if rid in st.mem and rid not in modregs and node is not s.mem[rid]:
                    raise Unsupported('loop footprint')
            for obj, v in o.st.cells.items():
                if obj in st.cells and ('cell', obj) not in slots and not vsame(v, s.cells[obj]):
                    raise Unsupported('loop footprint')
            if G is not None and not dropped and not hard(ctx, pc, z3.And(g_at(z3.IntVal(0)), g_at(K))):
                G = None
                dropped = True
            if dropped:
                break
        if not dropped:
            break
    else:
        raise Unsupported('loop summary does not converge')
    # ---- 5. locks, termination
    for o in backs:
        if {k: v for k, v in o.st.locks.items() if v} != {k: v for k, v in st.locks.items() if v}:
            ctx.extra_bad.append('lock state changes across a loop iteration')
        if o.st.bad != s.bad:
            ctx.extra_bad.extend(b for b in o.st.bad if b not in s.bad)
        if len(o.fr.defers) != len(fr.defers):
            raise Unsupported('defer inside a loop')
        if len(o.st.sections) != len(st.sections):
            raise Unsupported('a critical section inside a loop')
    term = all(terminates(ctx, o, nb, K) for o in backs) or \
        rel and all(len(nv) == len(lv) and probe.decreases(ctx, o, lv, nv) for o, nv in zip(backs, news))
    if not term:
        ctx.term_fail.append(loopname)
    ctx.loop_log.append({
        'loop': loopname, 'memory': {r: memc[r][0][0] for r in modregs},
        'values': {str(k[0][1]) + (''.join('.%s' % p for p in k[1])): cl[0][0] for k, cl in cands.items() if k[1] is not None},
        'guard': G is not None, 'facts': len(facts), 'terminates': term})
    vague = not term or ctx.spec is not None and ctx.spec.contents and any(memc[r][0][0] == 'havoc' and ctx.spec.part_candidates(ctx, r) for r in modregs) \
        or any(cl[0][0] == 'havoc' and (k in probe.syms or k in guessed) for k, cl in cands.items())
    return [o for o in outs if o.kind != 'back'], vague


def affine(a0, c):
    def f(K):
        if isinstance(a0, IV):
            return IV(a0.w, a0.s, 'i', simp_i(zi(a0.v) + c * zi(K)) if not is_c(K) else simp_i(zi(a0.v) + c * K), a0.fl)
        return simp_i(zi(a0) + c * zi(K))
    return f


def same_shape(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, StructV):
        return len(a.f) == len(b.f) and all(same_shape(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, SliceV):
        return a.rid == b.rid and (a.nil is b.nil or (isinstance(a.nil, bool) and a.nil == b.nil)
                                   or simp_b(beq(a.nil, b.nil)) is True)
    if isinstance(a, (IV, BoolV)):
        return True
    return vsame(a, b)


def build(ctx, key, v0, cands, slice_slots, K, s, depth, probe=False):
    if key in slice_slots:
        return slice_slots[key].at(ctx, K, s)
    if (key, None) in cands:
        return v0
    l0 = dict(leaves(v0))
    vals = {}
    for path, a0 in l0.items():
        tag, f = cands[(key, path)][0]
        if tag in ('havoc', 'rel'):
            if isinstance(a0, IV):
                rep = 'i' if (a0.w == 64 and a0.s) else 'b'
                vals[path] = gen(ctx, a0, 'h_' + str(key[1]), rep)
            elif isinstance(a0, V):
                vals[path] = gen(ctx, a0, 'h_' + str(key[1]), None)
            else:
                vals[path] = z3.Int(ctx.fresh('h_' + str(key[1])))
        else:
            vals[path] = f(K)
    return rebuild(v0, vals)


def store_pattern(ctx, st, rid, backs, base_len, K, mark, allow):
    """the memory after K iterations, read off the stores of one iteration"""
    m0 = st.mem[rid]
    addrs = []
    for o in backs:
        w = writes_between(o.st.mem[rid], m0)
        if w is None:
            return None
        for a in w:
            if not any(simp_b(ieq(a, b)) is True for b in addrs):
                addrs.append(a)
    pats = []
    for a in addrs:
        if fresh_after(syms_of(a), mark, allow):
            return None
        c = simp_i(zi(subst(a, K, K + 1)) - zi(a))
        if not is_c(c):
            return None
        v = None
        for o in backs:
            val = o.st.mem[rid].read(a)
            cond = [f for f in o.st.pc[base_len:]]
            try:
                v = val if v is None else vite(z3.And(*cond) if cond else True, val, v)
            except Unsupported:
                return None
        if fresh_after(syms_of(v), mark, allow):
            return None
        pats.append((subst(a, K, z3.IntVal(0)), c, v))

    def at(N):
        node = m0
        for a0, c, v in pats:
            node = MComp(node, pattern(simp_i(a0), c, v, K, N), None)
        return node
    return at


def pattern(a0, c, v, K, N):
    def f(x):
        if c == 0:
            return band(ile(1, N), ieq(x, a0)), (lambda: subst(v, K, zi(N) - 1))
        d = isub(x, a0) if c > 0 else isub(a0, x)
        cc = abs(c)
        if cc == 1:
            return band(ile(0, d), ilt(d, N)), (lambda: subst(v, K, zi(d)))
        return band(ile(0, d), ilt(d, zi(N) * cc), ieq(d % cc, 0)), (lambda: subst(v, K, zi(d) / cc if not is_c(d) else d // cc))
    return f


def comparison(f):
    """integer comparison literal as a term that is > 0 or >= 0 when f holds"""
    neg = False
    while z3.is_not(f):
        neg = not neg
        f = f.arg(0)
    if not z3.is_app(f) or f.num_args() != 2:
        return None
    a, b = f.arg(0), f.arg(1)
    if not z3.is_int(a):
        return None
    k = f.decl().kind()
    if k == z3.Z3_OP_LT:
        return b - a if not neg else a - b
    if k == z3.Z3_OP_LE:
        return b - a if not neg else a - b
    if k == z3.Z3_OP_GT:
        return a - b if not neg else b - a
    if k == z3.Z3_OP_GE:
        return a - b if not neg else b - a
    return None


def terminates(ctx, o, nb, K):
    """some guard literal on this back edge bounds k from above"""
    work = list(o.st.pc[nb:])
    while work:
        f = work.pop()
        if z3.is_and(f):
            work.extend(f.children())
            continue
        if z3.is_not(f) and z3.is_or(f.arg(0)):
            work.extend(z3.Not(c) for c in f.arg(0).children())
            continue
        e = comparison(f)
        if e is None:
            continue
        d = simp_i(z3.substitute(e, (K, K + 1)) - e)
        if is_c(d) and d < 0:
            # everything else in e must be fixed before the loop: only k varies
            names = syms_of(e)
            kn = number(K.decl().name())
            if not any(number(n) > kn for n in names if n != K.decl().name()):
                return True
    # i != n guards: the distance stays non-negative
    for f in o.st.pc[nb:]:
        g, neg = f, False
        while z3.is_not(g):
            g, neg = g.arg(0), not neg
        ne = z3.is_distinct(g) and not neg or z3.is_eq(g) and neg
        if ne and g.num_args() == 2 and z3.is_int(g.arg(0)):
            for e in (g.arg(0) - g.arg(1), g.arg(1) - g.arg(0)):
                d = simp_i(z3.substitute(e, (K, K + 1)) - e)
                if is_c(d) and d < 0 and ctx.pr.prove(o.st.pc, e >= 0):
                    return True
    return False


# ------------------------------------------------------------------ slices that move
class SliceTemplate:
    """a slice variable that holds the concatenation of the first K inputs in
    some freshly allocated region"""

    def __init__(self, spec, elem):
        self.spec, self.elem = spec, elem

    def at(self, ctx, K, s):
        return self.wrap(self.spec.concat_at(ctx, K, s, self.elem))

    def step(self, ctx, st, new, K):
        return self.spec.concat_check(ctx, st, self.unwrap(new), zi(K) + 1)

    def learn(self, *a):
        return True

    def forget(self):
        return False

    def base(self, ctx, st, v0):
        return self.spec.concat_check(ctx, st, self.unwrap(v0), 0)


class GrowTemplate:
    """a slice that every iteration appends the same number of elements to.
    Whether an append moves it is left open: at iteration k its storage is some
    fresh region holding the initial elements and what the iterations added."""

    def __init__(self, st, v0, path, step):
        self.v0, self.path, self.c = v0, path, step
        self.s0 = get_path(v0, path)
        self.mem0 = st.mem[self.s0.rid]
        self.vals = None

    def length(self, K):
        return simp_i(zi(self.s0.len) + self.c * zi(K))

    def content(self, K, node):
        s0, mem0 = self.s0, self.mem0
        if self.vals is not None:
            Kg = self.K
            for j, v in enumerate(self.vals):
                def f(x, j=j, v=v):
                    d = simp_i(zi(x) - zi(s0.len))
                    ok = band(ile(0, d), ilt(d, zi(K) * self.c), ieq(d % self.c, j) if self.c > 1 else True)
                    return ok, (lambda: subst(v, Kg, zi(d) / self.c if self.c > 1 else zi(d)))
                node = MComp(node, f)
        return MComp(node, in_range(0, s0.len, lambda k: mem0.read(iadd(s0.ptr, k))))

    def at(self, ctx, K, s):
        s0 = self.s0
        rid = ctx.new_region(s0.elem, 'fresh', s)
        s.mem[rid] = self.content(K, s.mem[rid])
        n, cp = self.length(K), z3.Int(ctx.fresh('cap'))
        lim = MAXADDR // max(1, ctx.esize(s0.elem))
        # assumed: the allocations so far succeeded, so the length is an addressable one
        s.assume(z3.And(cp >= zi(n), cp <= MAXADDR, zi(n) >= 0, zi(n) <= lim))
        return set_path(self.v0, self.path, SliceV(s0.elem, rid, 0, n, cp,
                                                False if s0.nil is False else z3.Bool(ctx.fresh('nil'))))

    def learn(self, ctx, ends, base_len, K, mark, allow):
        self.K = K
        vals = []
        for j in range(self.c):
            v = None
            for o, new in ends:
                s = get_path(new, self.path)
                x = o.st.mem[s.rid].read(simp_i(zi(s.ptr) + zi(self.length(K)) + j))
                cond = o.st.pc[base_len:]
                try:
                    v = x if v is None else vite(z3.And(*cond) if cond else True, x, v)
                except Unsupported:
                    return False
            v = clean(v)
            if v is None or fresh_after(syms_of(v), mark, allow):
                return False
            vals.append(v)
        self.vals = vals
        return True

    def forget(self):
        """leave the appended elements undescribed"""
        had, self.vals = self.vals, None
        return had is not None

    def step(self, ctx, st, new, K):
        s = get_path(new, self.path)
        if not isinstance(s, SliceV) or ctx.regions[s.rid].kind != 'fresh':
            return False
        for (pa, a), (pb, b) in zip(leaves_except(new, self.path), leaves_except(self.v0, self.path)):
            if not hard(ctx, st.pc, leaf_eq(a, b)):
                return False
        if not hard(ctx, st.pc, ieq(s.len, self.length(zi(K) + 1))):
            return False
        x = z3.Int(ctx.fresh('x'))
        pc = st.pc + [x >= 0, x < zi(s.len)]
        want = self.content(zi(K) + 1, st.mem[s.rid])
        return hard(ctx, pc, veq(st.mem[s.rid].read(iadd(s.ptr, x)), want.read(x)))


def clean(v):
    return IV(v.w, v.s, v.rep, z3.simplify(v.v) if not is_c(v.v) else v.v, v.fl) if isinstance(v, IV) else v


def grow_template(ctx, st, key, v0, cur, news):
    p = find_slice(v0)
    if p is None or type(cur) is not type(v0):
        return None
    s0, sc = get_path(v0, p), get_path(cur, p)
    if ctx.regions[s0.rid].kind != 'fresh' and not (is_c(s0.cap) and s0.cap == 0):
        return None
    steps = set()
    for n in news:
        if type(n) is not type(v0) or len(leaves_except(n, p)) != len(leaves_except(v0, p)):
            return None
        d = simp_i(zi(get_path(n, p).len) - zi(sc.len))
        if not is_c(d):
            return None
        steps.add(d)
    if len(steps) != 1 or not 1 <= min(steps) <= 16:
        return None
    return GrowTemplate(st, v0, p, min(steps))


def regions_of(v, acc, st=None):
    """regions a value refers to; with st, also through the pointers in it"""
    if isinstance(v, (SliceV, ElemPtr, ArrRef, ArrPtr, View)):
        acc.add(v.rid)
    elif isinstance(v, AddrV):
        regions_of(v.p, acc, st)
    elif isinstance(v, PtrV) and st is not None and v.obj in st.cells and ('seen', v.obj) not in acc:
        acc.add(('seen', v.obj))
        regions_of(st.cells[v.obj], acc, st)
    elif isinstance(v, StructV):
        for f in v.f:
            regions_of(f, acc, st)
    elif isinstance(v, TupleV):
        for f in v.e:
            regions_of(f, acc, st)
    elif isinstance(v, IfaceV):
        regions_of(v.v, acc, st)
    elif isinstance(v, FuncV):
        for f in v.binds:
            regions_of(f, acc, st)
    return acc


def private(fr, st, H, key, v0):
    """nothing that the loop or the code after it uses refers to the storage of
    v0 except the slot that grows"""
    s0 = get_path(v0, find_slice(v0))
    if is_c(s0.cap) and s0.cap == 0:
        return True
    rid = s0.rid
    for obj, v in st.cells.items():
        if ('cell', obj) != key and rid in regions_of(v, set()):
            return False
    if rid in fr.outer:
        return False
    names = {n for n, v in fr.regs.items() if rid in regions_of(v, set()) and ('phi', n) != key}
    for f, args in fr.defers:
        if any(rid in regions_of(a, set()) for a in (f,) + tuple(args)):
            return False
    seen, work = set(), [H]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        work.extend(fr.fn.blocks[b]['succs'])
    for b in seen:
        for i in fr.fn.blocks[b]['instrs']:
            if i['op'] == 'Phi' and b == H:
                continue
            if names & regs_in(i):
                return False
    return True


def regs_in(i):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'reg':
                out.add(x['n'])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(i)
    return out


def find_slice(v, path=()):
    if isinstance(v, SliceV):
        return path
    if isinstance(v, StructV):
        for k, f in enumerate(v.f):
            p = find_slice(f, path + (k,))
            if p is not None:
                return p
    return None


def get_path(v, path):
    for k in path:
        v = v.f[k]
    return v


def set_path(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = set_path(f[path[0]], path[1:], x)
    return StructV(v.t, f)


def slice_template(ctx, st, key, v0, news):
    if ctx.spec is None or not ctx.spec.has_concat():
        return None
    p = find_slice(v0)
    if p is None:
        return None
    # everything but the slice must be unchanged by the loop
    t = SliceTemplate(ctx.spec, get_path(v0, p).elem)
    for n in news:
        if type(n) is not type(v0):
            return None
        if isinstance(v0, StructV):
            a, b = leaves_except(n, p), leaves_except(v0, p)
            if len(a) != len(b):
                return None
    t.wrap = lambda s: set_path(v0, p, s)
    t.unwrap = lambda v: get_path(v, p)
    inner_step = t.step

    def step(ctx, st2, new, K):
        if isinstance(v0, StructV):
            for (pa, a), (pb, b) in zip(leaves_except(new, p), leaves_except(v0, p)):
                if not hard(ctx, st2.pc, leaf_eq(a, b)):
                    return False
        return inner_step(ctx, st2, new, K)
    t.step = step
    if not t.base(ctx, st, v0):
        return None
    return t


def leaves_except(v, p):
    return [(q, x) for q, x in leaves(v) if tuple(q[:len(p)]) != tuple(p)]
