"""Decides one property on /repo's current source.

  check.py C05 [--tier quick|thorough] [--seed N] [--repo DIR]
  check.py --replay FILE

Every obligation of every function the property depends on is generated from
the current source and discharged; what is not discharged is reported, with a
failing run of the real code when one is found."""
import argparse, collections, json, multiprocessing as mp, os, shutil, signal, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import ir, verify, spec, props, concrete, relations, vals

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAGS = ('v1', 'v2', 'v3')
PROPS = ['C%02d' % i for i in range(1, 23) if i != 19]
T = None                 # what the workers inherit


LIMITS = (verify.QUICK_MS, verify.FULL_MS)


class Task:
    """everything one check needs; inherited by the worker processes"""


# ---------------------------------------------------------------- workers
class TooLong(Exception):
    pass


def limited(fn, seconds, onlate):
    def late(sig, frm):
        raise TooLong()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        return fn()
    except TooLong:
        return onlate()
    finally:
        signal.alarm(0)


def late_result(name):
    r = verify.Result(name)
    r.unsupported = 'time limit'
    return r


def w_verify(job):
    """job: (kind, key, options)"""
    kind, key, opt = job
    opt = dict(opt)
    hard = opt.pop('hard', 1)
    lim = T.job_limit * hard
    verify.QUICK_MS, verify.FULL_MS = LIMITS[0] * hard, LIMITS[1] * hard
    try:
        if kind == 'ctor':
            tag, f, recv = key
            return job, limited(lambda: verify.verify_ctor(T.pkgs[tag], f, recv), lim, lambda: late_result('%s.%s' % (tag, f)))
        if kind == 'roundtrip':
            cw = T.specs.contracts[key]
            cr = relations.partner(T.specs, cw)
            return job, limited(lambda: verify.verify_roundtrip(T.pkgs[key[0]], cw, cr, **opt), lim,
                                lambda: late_result('%s ; %s' % (cw.id, cr.fname)))
        c = T.specs.contracts[key]
        if kind == 'atomic':
            return job, limited(lambda: verify.verify_atomic(T.pkgs[key[0]], c, **opt), lim, lambda: late_result(c.id + ' (other goroutines)'))
        if kind == 'total':
            return job, limited(lambda: verify.verify_total(T.pkgs[key[0]], c, **opt), lim, lambda: late_result(c.id))
        if kind == 'zero':
            opt = dict(opt, extra=[spec.expr(props.zero_case(c))])
        return job, limited(lambda: verify.verify(T.pkgs[key[0]], c, **opt), lim, lambda: late_result(c.id))
    except Exception as e:
        r = verify.Result('.'.join(str(x) for x in key))
        r.unsupported = 'internal: %s' % traceback.format_exc(limit=-4)
        return job, r


def w_build(args):
    return concrete.build_driver(*args, T.pkgs, T.specs)


def kinds_of(pid, c):
    return set(props.COVERS[pid](c)) if pid in props.COVERS else set()


def hits(pid, run, found):
    """the judged violations of a run that are violations of the property"""
    out = []
    for i, c, k, t in found:
        if c is None:
            cs = T.specs.of(run['pkg'], run.get('recv'), run['calls'][i]['fn']) if 'calls' in run else []
            if k == 'errors':
                if pid == 'C18':
                    out.append((i, 'package', k, t))
                continue
            if run.get('ctor'):
                if k in props.CTOR.get(pid, ()):
                    out.append((i, '%s.%s' % (run['pkg'], run['ctor']), k, t))
                continue
            for c in cs:
                ks = kinds_of(pid, c)
                if pid == 'C20':
                    ks = {'term'}
                if k in ks or pid == 'C16' and k == 'term' and 'lock' in ks:
                    out.append((i, c.id, k, t))
                    break
            continue
        ks = kinds_of(pid, c)
        if run.get('_total'):
            ks = set(props.anyarg(pid, c))
        elif pid == 'C20':
            ks = set(props.ZERO) if run.get('_zero') else {'term'}
        if k in ks:
            out.append((i, c.id, k, t))
    return out


def size(run):
    return (run.get('far') or 0, len(run.get('calls') or []), len(run['arena']), len(json.dumps(concrete.strip(run))))


def w_sample(job):
    """concrete runs; returns (runs, violating, per kind counts)
    job: (what, keys, seed, n, opts)"""
    what, keys, seed, n, opt = job
    g = concrete.Gen(T.specs, T.pkgs, seed)
    g.big = opt.get('big', 0)
    g.far = opt.get('far', False)
    pid = T.pid
    runs, groups = [], []
    lim = opt.get('seconds', 60)
    t0 = time.time()
    for key in keys:
        if what == 'ctor':
            for i in range(n):
                runs.append(g.ctor(key[0], key[1]))
            continue
        c = T.specs.contracts[key]
        for case in opt.get('cases', {}).get(key, []):
            g.n += 1
            r = concrete.run_of_case(case, c, g.n)
            if what == 'total':
                r['_total'] = True
            if what == 'roundtrip' or what == 'next' or what == 'mini':
                continue
            runs.append(r)
        pool = None
        tries = 0
        for i in range(n):
            if what == 'roundtrip':
                x = relations.gen_roundtrip(g, c, relations.partner(T.specs, c))
                if x:
                    groups.append(x)
            elif what == 'next':
                x = relations.gen_next(g, c, T.specs.contracts[(c.pkg, c.recv, c.next_of)])
                if x:
                    groups.append(x)
            elif what == 'mini':
                x = relations.gen_mini(g, T.specs.contracts[(c.pkg, 'Buffer', c.name)], c)
                if x:
                    groups.append(x)
            elif what == 'seq':
                if pool is None:
                    pool = [x for k, x in T.specs.contracts.items() if k[0] == key[0] and k[1] == key[1]]
                runs.append(g.seq(pool, c))
            else:
                if what == 'total':
                    runs.append(g.anyargs(c))
                    continue
                r = g.case(c, opt.get('kind'))
                if what == 'zero':
                    r = props.zero_run(c, r)
                    r['_zero'] = True
                if g.fits(c, r):
                    if what == 'locked':
                        r['mode'] = 'rlocked' if i % 4 == 3 else 'locked'
                    elif what == 'atomic':
                        r['mode'] = ('swap', 'relay', 'swapgrow')[i % 3]
                    runs.append(r)
    distinct = len({json.dumps({k: v for k, v in concrete.strip(r).items() if k != 'id'}, sort_keys=True)
                    for r in runs + [q for x in groups for q in x.runs[:1]]})
    bad = []
    allruns = runs + [r for x in groups for r in x.runs]
    if not allruns:
        return 0, 0, [], None
    res = concrete.run_driver(T.exe, allruns, budget=lim)
    for r in runs:
        h = hits(pid, r, concrete.judge_run(T.specs, r, res.get(r['id'])))
        if h:
            bad.append(([r], None, h))
    for x in groups:
        t = relations.judge(x, res)
        if t:
            bad.append((x.runs, x, [(0, x.c.id, x.rel, t)]))
    bad.sort(key=lambda b: size(b[0][0]))
    seen, keep = collections.Counter(), []
    for b in bad:
        k = (b[2][0][1], b[2][0][2])
        seen[k] += 1
        if seen[k] <= 2:
            keep.append(b)
    sample = None
    if allruns:
        sample = {k: v for k, v in concrete.strip(allruns[len(allruns) // 2]).items() if k != 'id'}
    ran = sum(1 for r in allruns if r['id'] in res)
    return ran, distinct, [(b[0], b[1] and (b[1].rel, b[1].c.id), b[2]) for b in keep[:12]], sample


def rejudge(pid, runs, rel, exe, patience=20):
    """run again, alone; the violations of the property seen this time"""
    for i, r in enumerate(runs):
        r['id'] = i + 1
    res = concrete.run_driver(exe, runs, budget=90, patience=patience)
    if rel:
        grp = relations.Group(rel[0], contract_by_id(rel[1]), runs)
        t = relations.judge(grp, res)
        return ([(0, rel[1], rel[0], t)] if t else []), res
    return hits(pid, runs[0], concrete.judge_run(T.specs, runs[0], res.get(1))), res


def contract_by_id(i):
    return next(c for c in T.specs.contracts.values() if c.id == i)


# ---------------------------------------------------------------- the check
def key_of(c):
    return (c.pkg, c.recv, c.name)


class Item:
    """one function (or pair of functions) a property depends on"""

    def __init__(self, kind, key, cid, kinds):
        self.kind, self.key, self.cid, self.kinds = kind, key, cid, kinds
        self.res = None
        self.also = []           # further results that count (pairs)

    def failing(self):
        r = self.res
        out = []
        if r.unsupported:
            out.append({'kind': 'undecided', 'name': 'the function is outside what the verifier can decide: ' + r.unsupported,
                        'status': 'failed', 'detail': r.unsupported, 'case': None, 'function': r.cid})
            return out
        for o in r.obls:
            if o.status != 'proved' and o.kind in self.kinds:
                d = o.dict()
                d['function'] = r.cid
                out.append(d)
        if not out and (r.vacuous or not r.cover) and not any(o.status != 'proved' for o in r.obls):
            out.append({'kind': 'vacuous', 'name': 'no execution reaches the postcondition', 'status': 'failed', 'detail': '',
                        'case': None, 'function': r.cid})
        return out

    def counts(self):
        n = [o for o in self.res.obls if o.kind in self.kinds]
        return len(n), sum(1 for o in n if o.status == 'proved')


def items_of(pid):
    sp = T.specs
    out = []
    if pid == 'C03':
        for cw, cr in relations.roundtrip_pairs(sp):
            out.append(Item('roundtrip', key_of(cw), '%s ; %s' % (cw.id, cr.fname), {'result', 'nopanic'}))
        return out
    if pid == 'C15':
        for b, m in relations.mini_pairs(sp):
            for c in (b, m):
                out.append(Item('mini', key_of(c), c.id, set(props.RELATED) - {'fresh'} | set(props.FIELDS)))
        return out
    for k, c in sp.contracts.items():
        ks = set(props.COVERS[pid](c)) if pid in props.COVERS else set()
        if not ks:
            continue
        if pid == 'C22':
            out.append(Item('atomic', k, c.id, ks))
            continue
        out.append(Item('contract', k, c.id, ks))
        if pid == 'C20' and props.zero_case(c):
            out.append(Item('zero', k, c.id + ' (zero length)', set(props.ZERO)))
    seen = set()
    for k, c in sp.contracts.items():
        ks = set(props.anyarg(pid, c))
        if ks and (c.pkg, c.recv, c.fname) not in seen:
            seen.add((c.pkg, c.recv, c.fname))
            out.append(Item('total', k, total_id(c), ks))
    if pid == 'C07':
        for n, b in relations.next_pairs(sp):
            out.append(Item('next', key_of(n), n.id, set(props.RELATED) | {'panic', 'runtime'}))
    if pid in props.CTOR:
        for (tag, f) in ctors():
            recv = 'Buffer' if f == 'NewBuffer' else 'MiniBuffer'
            if pid == 'C16' and (tag == 'v3' or recv != 'Buffer'):
                continue
            out.append(Item('ctor', (tag, f, recv), '%s.%s' % (tag, f), set(props.CTOR[pid])))
    return out


def total_id(c):
    return '%s.%s.%s (any arguments)' % (c.pkg, c.recv, c.fname)


def ctors():
    return [(t, f) for t in TAGS for f in ('NewBuffer', 'NewMiniBuffer')]


JOBKIND = {'contract': 'contract', 'atomic': 'atomic', 'total': 'total', 'mini': 'contract', 'next': 'contract', 'zero': 'zero', 'ctor': 'ctor', 'roundtrip': 'roundtrip'}


def verify_all(pool, items, hard=1):
    """results by (kind, key), verifying callees used by contract as well;
    hard: multiplies the limits of the solver"""
    more = {'hard': hard} if hard > 1 else {}
    done = {}
    want = list(dict.fromkeys((JOBKIND[i.kind], i.key) for i in items))

    def go(jobs):
        for job, r in pool.imap_unordered(w_verify, jobs, 1):
            done[(job[0], job[1])] = r
    # slow ones first
    slow = lambda k: 0 if k[0] == 'ctor' or 'Bits' in str(k[1]) else 1
    want.sort(key=slow)
    go([(k, key, dict(more)) for k, key in want])
    byid = {c.id: k for k, c in T.specs.contracts.items()}
    while True:
        need = {byid[a] for r in done.values() for a in r.applied} - {k for kd, k in done if kd == 'contract'}
        if not need:
            break
        go([('contract', k, dict(more)) for k in sorted(need)])
    # a callee that does not meet its contract may not be used at calls
    banned = set()
    while True:
        new = {r.cid for (kd, k), r in done.items() if kd == 'contract' and
               (r.unsupported or r.vacuous or any(o.status != 'proved' for o in r.obls))}
        again = [(kd, k) for (kd, k), r in done.items() if any(a in new and (a not in banned or True) for a in r.applied)]
        again = [x for x in again if set(done[x].applied) & new]
        if not again:
            break
        banned |= new
        go([(kd, k, dict(more, noapply=tuple(sorted(banned))) if kd != 'ctor' else dict(more)) for kd, k in again])
    T.banned = tuple(sorted(banned))
    for i in items:
        i.res = done[(JOBKIND[i.kind], i.key)]
    return done


def chunks(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def sample_jobs(pid, items, seed, scale):
    """the conformance sample run on every check"""
    by = collections.defaultdict(list)
    for i in items:
        by[i.kind].append(i.key)
    jobs = []
    s = seed * 1000003

    def add(what, keys, n, **opt):
        nonlocal s
        for ks in chunks(keys, 8):
            s += 1
            jobs.append((what, ks, s, n, opt))
    if by['contract']:
        add('case', by['contract'], 24 * scale)
        add('seq', by['contract'], 3 * scale)
        if pid == 'C16':
            add('locked', by['contract'], 2 * scale)
    if by['atomic']:
        add('atomic', by['atomic'], 3 * scale)
    if by['total']:
        add('total', by['total'], 10 * scale)
    if by['zero']:
        add('zero', by['zero'], 12 * scale)
    if by['roundtrip']:
        add('roundtrip', by['roundtrip'], 30 * scale)
    if by['next']:
        add('next', by['next'], 10 * scale)
    if by['mini']:
        add('mini', [k for k in by['mini'] if k[1] == 'MiniBuffer'], 20 * scale)
    if by['ctor']:
        add('ctor', by['ctor'], 200 * scale)
    return jobs


def run_samples(pool, jobs, stat):
    bad = []
    for ran, distinct, b, sample in pool.imap_unordered(w_sample, jobs, 1):
        stat['runs'] += ran
        stat['distinct'] += distinct
        if sample and len(stat['samples']) < 3:
            stat['samples'].append(sample)
        bad += b
    return bad


def confirm(pid, bad, exe, limit=6):
    """violations that happen again when run alone, smallest first, one per
    function and kind"""
    bad = sorted(bad, key=lambda b: size(b[0][0]))
    out, seen = [], set()
    for runs, rel, h in bad:
        k = (h[0][1], h[0][2])
        if k in seen or len(out) >= limit:
            continue
        h2, res = rejudge(pid, runs, rel, exe)
        if h2:
            seen.add(k)
            out.append((runs, rel, h2, res))
    return out


def search(pool, pid, items, exe, stat, deadline):
    """look for a failing run of the real code for every item that is not proved"""
    bad = []
    cases = collections.defaultdict(list)
    for it in items:
        for o in it.failing():
            if o['case'] and it.kind in ('contract', 'zero', 'total'):
                cases[it.key].append(o['case'])
    s = 7919 * (T.seed + 1)
    focus = items[:8]
    what = {'contract': 'case', 'atomic': 'atomic', 'total': 'total', 'zero': 'zero', 'next': 'next', 'roundtrip': 'roundtrip', 'ctor': 'ctor', 'mini': 'mini'}

    def keyfor(it):
        return (it.key[0], 'MiniBuffer', it.key[2]) if it.kind == 'mini' else it.key

    def jobs(n, nseq, big):
        nonlocal s
        out = []
        for it in focus:
            k = keyfor(it)
            for j in range(4):
                s += 1
                opt = {'big': big if j % 2 else 0, 'seconds': 100}
                if j == 0 and it.kind in ('contract', 'total'):
                    opt['cases'] = {it.key: cases[it.key][:12]}
                m = n if not opt['big'] else n // 6 if opt['big'] == 1 else n // 40
                out.append((what[it.kind], [k], s, m if it.kind != 'ctor' else n * 2, opt))
                if it.kind == 'contract' and nseq:
                    s += 1
                    out.append(('seq', [k], s, nseq, {'seconds': 100}))
                if it.kind == 'contract' and pid == 'C16':
                    s += 1
                    out.append(('locked', [k], s, 12, {'seconds': 100}))
        return out
    got = lambda: confirm(pid, bad, exe)
    bad += run_samples(pool, jobs(300, 40, 1), stat)
    ok = got()
    if ok:
        return ok
    # counterexamples from the engine with loops unrolled instead of abstracted
    bj = [(it.kind, it.key, {'bounded': k}) for it in focus if it.kind in ('contract', 'total') for k in (1, 3, 9)]
    found = collections.defaultdict(list)
    for job, r in pool.imap_unordered(w_verify, bj, 1):
        for o in r.obls:
            if o.status != 'proved' and o.case:
                found[job[:2]].append(o.case)
    if found:
        bad += run_samples(pool, [(what[kd], [k], 1, 0, {'cases': {k: v[:20]}}) for (kd, k), v in found.items()], stat)
        ok = got()
        if ok:
            return ok
    far = [it for it in focus if it.kind in ('contract', 'next', 'roundtrip', 'mini') and
           T.specs.contracts[keyfor(it)].groups[0] in ('bit1', 'bits', 'raw', 'typed')][:4]
    if far:
        bad += run_samples(pool, [(what[it.kind], [keyfor(it)], s + k, 4, {'seconds': 60, 'far': True}) for it in far for k in range(3)], stat)
        ok = got()
        if ok:
            return ok
    rounds = 2 if T.tier == 'quick' else 8
    for i in range(rounds):
        if time.time() > deadline:
            break
        bad += run_samples(pool, jobs(1500 * (1 + i), 300 * (1 + i), 2), stat)
        ok = got()
        if ok:
            return ok
    return []


def undecided(pid, items):
    """items whose failure is an alarm even without a failing run"""
    out = []
    bykey = {(i.kind, i.key): i for i in items}
    for it in items:
        f = it.failing()
        if not f:
            continue
        if it.kind == 'mini':
            # both sides off their contract: they may well agree, and the
            # differential runs found no difference
            other = bykey[('mini', (it.key[0], 'MiniBuffer' if it.key[1] == 'Buffer' else 'Buffer', it.key[2]))]
            if other.failing():
                continue
        if it.kind == 'next':
            c = T.specs.contracts[it.key]
            b = T.done.get(('contract', (c.pkg, c.recv, c.next_of)))
            if b is not None and (b.unsupported or any(o.status != 'proved' for o in b.obls)):
                continue
        out.append((it, f))
    return out


def replay_file(pid, name, doc):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, name))
    json.dump(doc, open(p, 'w'), indent=1, default=str)
    return p


def show_res(runs, res):
    return {str(r['id']): res.get(r['id']) for r in runs}


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                d = dict(x.split('=', 1) for x in ln[8:].split(' ')[:4] if '=' in x)
                d['text'] = ln[8:].strip()
                out.append(d)
    return out


def prepare(repo, work):
    dumper = ir.build_dumper(work)
    import concurrent.futures as cf
    pk = {}
    with cf.ThreadPoolExecutor(3) as ex:
        for t, p in zip(TAGS, ex.map(lambda t: ir.dump(dumper, os.path.join(repo, t)), TAGS)):
            p.tag = t
            pk[t] = p
    return dumper, pk


def main():
    global T
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--evidence')
    a = ap.parse_args()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='crunchverif.')
    try:
        T = Task()
        T.tier = 'thorough' if a.tier == 'thorough' else 'quick'
        T.seed, T.repo, T.work, T.t0 = a.seed, a.repo, work, t0
        vals.Prover.dual = 0 if T.tier == 'quick' else 600
        T.job_limit = 90 if T.tier == 'quick' else 400
        T.specs = spec.SpecFile()
        verify.Applier.specs = T.specs
        if a.replay:
            return replay(a.replay)
        pid = T.pid = a.prop
        if pid not in PROPS:
            print('unknown property %s' % pid)
            return 2
        T.dumper, T.pkgs = prepare(a.repo, work)
        if pid in ('C17', 'C18'):
            import special
            special.T = T
            out = special.check(pid, sys.modules[__name__])
        else:
            out = check(pid)
        viol, ev = out
        ev['wall_s'] = round(time.time() - t0, 2)
        ev['violations'] = len(viol)
        path = a.evidence or os.path.join(VERIF, 'evidence', pid + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump(ev, open(path, 'w'), indent=1, default=str)
        c = ev['coverage']
        print('%s: %d obligations, %d discharged, %d functions, %d runs of the real code, %.1f s' %
              (pid, c.get('obligations', 0), c.get('discharged', 0), c.get('functions_under_contract', 0),
               c.get('evaluations', 0), ev['wall_s']))
        for v in viol:
            print(v)
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


TRUSTED = [
    'go/ssa (golang.org/x/tools) translates the source faithfully; the Go compiler implements Go',
    'the obligation generator in engine/ (symbolic executor, loop rule, memory model) and z3',
    'assumed contracts: sync.Mutex Lock/Unlock, math.Float32bits/Float64bits and inverses, fmt.Sprintf with %s, '
    'math/bits.ReverseBytes*, bytes.Repeat and bytes.Join, package initialisation of imported packages, the built-ins copy, append, len, cap, make',
]
ASSUME = [
    'integers are 64-bit two\'s complement (checked: every arithmetic result is normalised); slices are at most 2^47 bytes',
    'the stack is large enough; allocation succeeds, except that growing beyond 2^40 bytes may panic',
    'no goroutine changes the buffer during a call; a destination pointer passed to a MiniBuffer does not point into the buffer',
    'memory of different element types does not overlap (no unsafe aliasing by the caller)',
    'numbers are laid out little-endian where memory is accessed as another type through unsafe pointers, and such accesses need no alignment',
    'the inputs of a constructor have at most 2^47 bytes together',
    'a user\'s binary.ByteOrder (v1) may panic, return anything and fill the slice it is given, but leaves the buffer alone',
]


CVC5 = shutil.which('cvc5') or '/usr/bin/cvc5'


def w_cvc5(job):
    path, ms = job
    try:
        p = subprocess.run([CVC5, '--lang=smt2', '--tlimit=%d' % ms, path], capture_output=True, text=True, timeout=ms / 1000 + 20)
        out = (p.stdout + p.stderr).strip().split('\n')
    except (subprocess.TimeoutExpired, OSError) as e:
        return path, 'unknown'
    if out and out[0] in ('sat', 'unsat'):
        return path, out[0]
    if any('rror' in x for x in out):
        return path, 'not read: ' + out[0][:200]
    return path, 'unknown'


def second_solver(pool, done):
    """thorough: a sample of the contradictions z3 found - pruned paths, side
    conditions, loop steps and obligations - is given to cvc5"""
    d = os.path.join(T.work, 'smt')
    os.makedirs(d)
    jobs, of, total = [], {}, 0
    for r in done.values():
        total += r.unsat
        for k, text in enumerate(r.dual):
            p = os.path.join(d, '%d.smt2' % len(jobs))
            with open(p, 'w') as f:
                f.write('(set-logic ALL)\n' + text.replace('bv2int', 'bv2nat'))
            jobs.append((p, 10000))
            of[p] = r.cid
    n = collections.Counter()
    odd = []
    for p, a in pool.imap_unordered(w_cvc5, jobs, 4):
        n[a.split(':')[0]] += 1
        if a not in ('unsat', 'unknown'):
            odd.append((of[p], a, open(p).read()))
    return {'contradictions_found_by_z3': total, 'sampled': len(jobs), 'confirmed_by_cvc5': n['unsat'], 'cvc5_gave_up': n['unknown'],
            'cvc5_could_not_read': n['not read'], 'cvc5_disagrees': n['sat'], 'odd': [x[:2] for x in odd[:5]]}, odd


def evidence(pid, items, done, stat, extra=None):
    tot = dis = 0
    seen = set()
    funcs = set()
    for i in items:
        n, d = i.counts()
        tot += n
        dis += d
        if i.res.unsupported:
            tot += 1
    for (kd, k), r in done.items():
        funcs.add(r.cid)
    inl = sorted({x for r in done.values() for x in r.inlined})
    loops = sum(len(r.loops) for r in done.values())
    ex = []
    for i in items[:: max(1, len(items) // 3)][:3]:
        o = next((o for o in i.res.obls if o.kind in i.kinds), None)
        if o:
            ex.append('%s (%s): %s: %s' % (i.cid, i.res.loc, o.kind, o.name))
    cov = {
        'obligations': tot, 'discharged': dis,
        'checker_cmd': 'python3-vt /verif/engine/check.py %s --tier %s' % (pid, T.tier),
        'trusted_base': TRUSTED,
        'functions_under_contract': len(funcs),
        'functions_inlined': inl,
        'functions_outside_the_verifier': sorted({i.cid for i in items if i.res.unsupported}),
        'loops_with_invariants': loops,
        'paths': sum(r.paths for r in done.values()),
        'back_end': 'z3 %s' % z3.get_version_string(),
        'solver_queries': sum(r.queries for r in done.values()),
        'solver_s': round(sum(r.solver_s for r in done.values()), 2),
        'slowest_function_s': round(max([r.time for r in done.values()] or [0]), 2),
        'obligation_samples': ex,
        'vacuity': 'every precondition satisfiable and every postcondition reached: %s' %
                   all(not r.vacuous and r.cover for r in done.values() if not r.unsupported),
        'evaluations': stat['runs'], 'distinct_nontrivial': stat['distinct'],
        'rule': 'conformance runs of the real code judged by the same contracts: random states and arguments around the '
                'boundaries, constants taken from the code; non-trivial = inside the contract\'s precondition and distinct',
        'samples': stat['samples'],
    }
    cov.update(extra or {})
    return {'property': pid, 'tier': T.tier, 'seed': T.seed, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUME}


def check(pid):
    items = items_of(pid)
    assert items
    ctx = mp.get_context('fork')
    stat = {'runs': 0, 'distinct': 0, 'samples': []}
    with ctx.Pool(9) as pool0:
        fut = pool0.apply_async(w_build, ((T.work, T.repo, list(TAGS)),))
        done = T.done = verify_all(pool0, items)
        T.exe = fut.get()
    failing = [i for i in items if i.failing()]
    deadline = T.t0 + (420 if T.tier == 'quick' else 3000)
    with ctx.Pool(8) as pool:
        scale = 1 if T.tier == 'quick' else 25
        bad = run_samples(pool, sample_jobs(pid, items, T.seed, scale), stat)
        conf = confirm(pid, bad, T.exe)
        if failing and not conf:
            # where the solver gave up, once more with larger limits
            late = [i for i in failing if i.res.unknowns or i.res.unsupported == 'time limit']
            if late:
                T.done = done = {**done, **verify_all(pool, late, hard=3)}
                failing = [i for i in items if i.failing()]
        if failing and not conf:
            conf = search(pool, pid, failing, T.exe, stat, deadline)
    viol = []
    allf = [o for i in items for o in i.failing()]
    for k, (runs, rel, h, res) in enumerate(conf):
        fid = h[0][1]
        doc = {'property': pid, 'kind': 'failing run of the real code', 'function': fid, 'what': ['%s: %s' % (x[2], x[3]) for x in h],
               'rel': rel, 'runs': [concrete.strip(r) for r in runs], 'zero': bool(runs[0].get('_zero')),
               'any_arguments': bool(runs[0].get('_total')),
               'observed': show_res(runs, res),
               'obligations_not_discharged': [o for o in allf if fid in o['function'] or o['function'] in fid][:20] or allf[:20]}
        p = replay_file(pid, str(k + 1), doc)
        print('%s: %s: %s' % (fid, h[0][2], h[0][3]))
        viol.append('VIOLATION property=%s replay=%s' % (pid, p))
    if not conf:
        und = undecided(pid, items)
        if und:
            for it, f in und[:10]:
                for o in f[:4]:
                    print('%s: not discharged: %s: %s (%s)' % (o['function'], o['kind'], o['name'], o['detail']))
            doc = {'property': pid, 'kind': 'obligations not discharged', 'obligations': [o for it, f in und for o in f][:100],
                   'note': 'no failing input found in %d runs of the real code' % stat['runs']}
            p = replay_file(pid, 'undischarged', doc)
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    extra = {}
    if T.tier == 'thorough':
        with ctx.Pool(8) as pool:
            extra['second_solver'], odd = second_solver(pool, done)
        for c, a, text in odd:
            if a == 'sat':
                p = replay_file(pid, 'solvers-disagree', {'property': pid, 'kind': 'z3 and cvc5 disagree', 'function': c, 'smt2': text})
                viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
                break
    ev = evidence(pid, items, done, stat, extra)
    return viol, ev


def replay(path):
    doc = json.load(open(path))
    T.pid = doc['property']
    if 'runs' not in doc:
        print(json.dumps(doc, indent=1)[:20000])
        return 0
    T.dumper, T.pkgs = prepare(T.repo, T.work)
    T.exe = concrete.build_driver(T.work, T.repo, list(TAGS), T.pkgs, T.specs)
    runs = doc['runs']
    if doc.get('zero'):
        runs[0]['_zero'] = True
    if doc.get('any_arguments'):
        runs[0]['_total'] = True
    h, res = rejudge(T.pid, runs, doc.get('rel'), T.exe)
    print(json.dumps({'runs': runs, 'observed': show_res(runs, res)}, indent=1)[:6000])
    for x in h:
        print('%s: %s: %s' % (x[1], x[2], x[3]))
    print('violated again' if h else 'not violated')
    return 1 if h else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
