"""The two properties that are not about single operations of a buffer: the
generated code (C17) and the error values (C18)."""
import collections, filecmp, hashlib, json, os, random, shutil, subprocess, time, multiprocessing as mp
import z3
import ir, verify, spec, props, concrete, sym, vals
from vals import StrV, StructV, IfaceV, PtrV, Unsupported

T = None


def check(pid, ck):
    return c17(ck) if pid == 'C17' else c18(ck)


# ================================================================ error values
def run_error(pkg, v, dyn):
    """symbolically executes v.Error(); returns the resulting string, or raises"""
    ctx = verify.new_ctx(pkg)
    st = sym.State()
    if isinstance(v, str):
        # an arbitrary value of the error type
        d = pkg.ty(v)
        fs = []
        for f in d['fields']:
            fs.append(StrV([Atom(f['n'])]) if pkg.types.get(f['t'], {}).get('k') == 'basic' and 'string' in f['t'] or f['t'] == 'string'
                      else ctx.fresh_value(f['t'], 'field_' + f['n'], st))
        v = StructV(v, fs)
    m = pkg.method(dyn.rsplit('.', 1)[-1], 'Error') if '.' in dyn else None
    if m is None:
        raise Unsupported('no Error method on ' + dyn)
    recv = v
    if m.recv and m.recv.startswith('*') and not isinstance(v, PtrV):
        st.cells['err'] = v
        recv = PtrV('err', (), dyn)
    before = dict(st.cells)
    outs = ctx.run(m, [recv], st)
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Unsupported('%d outcomes' % len(outs))
    o = outs[0]
    for k, x in o.st.cells.items():
        x0 = before.get(k)
        if x0 is None and k.startswith('global:'):
            x0 = ctx.global_init[k[7:]][0] if k[7:] in ctx.global_init else None
        if x0 is not None and not verify.vsame(x, x0):
            raise Unsupported('Error() changes %s' % k)
    return o.val, v


class Atom:
    """an arbitrary string"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<%s>' % self.n


def texts(exe):
    p = subprocess.run([exe, 'errors'], capture_output=True, text=True, timeout=60)
    if p.returncode != 0:
        return None
    try:
        return json.loads(p.stdout)
    except ValueError:
        return None


def c18(ck):
    obls, viol = [], []
    T.done, items = {}, []

    def ob(tag, name, ok, detail='', fn='errors'):
        obls.append({'function': tag, 'kind': 'error', 'name': name, 'status': 'proved' if ok else 'failed', 'detail': detail})
        return ok
    T.exe = concrete.build_driver(T.work, T.repo, list(ck.TAGS), T.pkgs, T.specs)
    seen = texts(T.exe) or {'text': {}, 'equal': {}}
    writers = collections.defaultdict(set)
    impure = {}
    for tag in ck.TAGS:
        pkg = T.pkgs[tag]
        want = T.specs.errortext[tag]
        init, mutable, err = verify.global_facts(pkg)
        names = {n.rsplit('.', 1)[-1]: n for n in pkg.globals}
        exported = sorted(n for n in names if n[:1].isupper() and n.endswith('Error'))
        # the method, for every scope and message
        sym_ok, why = True, ''
        try:
            r, v = run_error(pkg, pkg.path + '.Error', pkg.path + '.Error')
            strs = [f.parts[0] for f in v.f if isinstance(f, StrV)]
            by = {a.n: a for a in strs}
            exp = ['crunch: ', by.get('scope', strs[0]), ': ', by.get('error', strs[-1])]
            if not isinstance(r, StrV) or list(r.parts) != exp:
                sym_ok, why = False, 'returns %r' % (getattr(r, 'parts', r),)
        except (Unsupported, KeyError, IndexError) as e:
            sym_ok, why = False, str(e)
        # hidden state of the method: every function it may reach
        m = pkg.method('Error', 'Error')
        state = []
        if m is not None:
            for fn in {m.name} | verify.reach(pkg, m.name):
                f = pkg.funcs.get(fn)
                if f is None or f.blocks is None:
                    if not any(fn.startswith(p) for p in ('fmt.', 'strings.', 'strconv.', 'builtin:', '(*strings.Builder)')):
                        state.append('calls ' + fn)
                    continue
                if not f.target:
                    continue
                for b in f.blocks:
                    for i in b['instrs']:
                        for g in verify.globals_in(i):
                            if g in mutable:
                                state.append('uses the variable %s, which may change' % g)
        pure = m is not None and not state
        got = seen['text'].get(tag, {})
        for n in sorted(set(want) | set(exported)):
            full = names.get(n)
            if not ob(tag, '%s is declared' % n, full is not None):
                continue
            muts = sorted(mutable.get(full, ()))
            if not ob(tag, '%s is never assigned, nor its address taken, after initialisation' % n, not muts,
                      'in ' + ', '.join(muts)):
                writers[tag] |= set(muts)
            text, how = None, ''
            try:
                if full not in init:
                    raise Unsupported(err or 'no initial value')
                v0 = init[full][0]
                t = pkg.ty(pkg.globals[full]['t'])['elem']
                r, _ = run_error(pkg, v0, t.lstrip('*'))
                text = r.lit() if isinstance(r, StrV) else None
                how = 'by symbolic execution'
            except (Unsupported, KeyError) as e:
                how = str(e)
            if text is None and pure and n in got:
                # a closed term: one evaluation decides it
                text, how = got[n], 'by evaluating the closed term'
            exp = want.get(n)
            if exp is None:
                okt = text is not None and text.startswith('crunch: ') and ': ' in text[8:] and all(text[8:].split(': ', 1))
                ob(tag, '%s has a text of the form "crunch: scope: message"' % n, okt, 'text %r, %s' % (text, how))
            else:
                okt = ob(tag, '%s has the text %r' % (n, exp), text == exp, 'text %r, %s' % (text, how))
            if n in got and exp is not None and got[n] != exp:
                impure.setdefault(('text', tag, n), 'the text of %s.%s is %r, not %r' % (tag, n, got[n], exp))
            elif n in got and exp is None and not okt and text == got[n]:
                impure.setdefault(('text', tag, n), 'the text of %s.%s is %r' % (tag, n, got[n]))
        # distinct
        inv = collections.defaultdict(list)
        for n, t in got.items():
            inv[t].append(n)
        dup = {t: ns for t, ns in inv.items() if len(ns) > 1}
        ob(tag, 'no two exported errors have the same text', bool(got) and not dup, str(dup))
        ob(tag, 'no two exported errors are equal', bool(got) and not seen['equal'].get(tag), str(seen['equal'].get(tag)))
        for t, ns in dup.items():
            impure[('dup', tag, t)] = 'the errors %s of %s all have the text %r' % (', '.join(sorted(ns)), tag, t)
        ob(tag, 'Error() is "crunch: " ++ scope ++ ": " ++ message for every scope and message, and changes nothing',
           sym_ok or pure, why + ('; but it depends on nothing but the error value, and the exported values are evaluated' if pure and not sym_ok else '; '.join(state)))
    # conformance: run the operations and look at the error values afterwards
    stat = {'runs': 0, 'distinct': 0, 'samples': []}
    keys = list(T.specs.contracts)
    ctx = mp.get_context('fork')
    T.pid = 'C18'
    n0 = 6 if T.tier == 'quick' else 60
    with ctx.Pool(8) as pool:
        bad = ck.run_samples(pool, [('case', ks, T.seed * 77 + i, n0, {}) for i, ks in enumerate(ck.chunks(keys, 16))], stat)
        conf = ck.confirm('C18', bad, T.exe)
        if not conf and any(writers.values()):
            focus = []
            for c in T.specs.contracts.values():
                f = T.pkgs[c.pkg].method(c.recv, c.fname)
                if f and ({f.name} | verify.reach(T.pkgs[c.pkg], f.name)) & writers[c.pkg]:
                    focus.append((c.pkg, c.recv, c.name))
            for rnd in range(3):
                if not focus or conf:
                    break
                jobs = []
                for i in range(8):
                    for k in focus[:40]:
                        jobs.append(('case', [k], T.seed * 991 + 31 * i + rnd * 7919, (300, 100, 40)[rnd], {'big': rnd}))
                        if i < 2:
                            jobs.append(('seq', [k], T.seed * 991 + 37 * i + rnd * 7919, 60 * (rnd + 1), {}))
                bad = ck.run_samples(pool, jobs, stat)
                conf = ck.confirm('C18', bad, T.exe)
    failed = [o for o in obls if o['status'] != 'proved']
    for k, (runs, rel, h, res) in enumerate(conf):
        p = ck.replay_file('C18', str(k + 1), {'property': 'C18', 'kind': 'failing run of the real code', 'what': [x[3] for x in h],
                                              'runs': [concrete.strip(r) for r in runs], 'observed': ck.show_res(runs, res),
                                              'obligations_not_discharged': failed[:20]})
        print('%s: %s' % (h[0][1], h[0][3]))
        viol.append('VIOLATION property=C18 replay=%s' % p)
    for k, ((what, tag, n), t) in enumerate(sorted(impure.items())[:6]):
        p = ck.replay_file('C18', 'text%d' % (k + 1), {'property': 'C18', 'kind': 'error texts of the real code', 'what': t,
                                                     'observed': seen['text'].get(tag), 'obligations_not_discharged': failed[:20]})
        print(t)
        viol.append('VIOLATION property=C18 replay=%s' % p)
    if failed and not viol:
        for o in failed[:10]:
            print('%s: not discharged: %s (%s)' % (o['function'], o['name'], o['detail']))
        p = ck.replay_file('C18', 'undischarged', {'property': 'C18', 'kind': 'obligations not discharged', 'obligations': failed,
                                                 'note': 'no failing input found in %d runs of the real code' % stat['runs']})
        viol.append('VIOLATION property=C18 replay=%s no-failing-input-found' % p)
    cov = {'obligations': len(obls), 'discharged': len(obls) - len(failed),
           'checker_cmd': 'python3-vt /verif/engine/check.py C18 --tier %s' % T.tier, 'trusted_base': ck.TRUSTED,
           'functions_under_contract': 3, 'error_values': sum(len(T.specs.errortext[t]) for t in ck.TAGS),
           'functions_scanned_for_assignments': sum(1 for t in ck.TAGS for f in T.pkgs[t].funcs.values() if f.target),
           'back_end': 'symbolic execution of the initialisers and of Error(); the results are closed terms or compare syntactically',
           'obligation_samples': ['%s: %s' % (o['function'], o['name']) for o in obls[:: max(1, len(obls) // 4)]],
           'evaluations': stat['runs'], 'distinct_nontrivial': stat['distinct'],
           'rule': 'runs of the operations after which every exported error value is compared with its initial value',
           'samples': stat['samples']}
    return viol, {'property': 'C18', 'tier': T.tier, 'seed': T.seed, 'level': 'proof', 'coverage': cov,
                  'assumptions': ['no code outside the package assigns its exported variables or uses unsafe pointers to them',
                                  'fmt.Sprintf with %s inserts the string']}


# ================================================================ generated code
def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def names_of(src):
    """template -> output"""
    out = {}
    for f in sorted(src):
        if '/' not in f and f.startswith('_') and f.endswith('.go'):
            out[f] = f[1:-3] + '.generated.go'
    return out


def scenarios(shipped, outs, seed, more):
    """prior states of the output files: name -> {file: bytes, or None if absent}"""
    rnd = random.Random(seed)

    def all_(fn):
        return {f: fn(shipped.get(f, b'')) for f in outs}

    def noise(n):
        return bytes(rnd.choice(b'abc(){}\n/ ') for _ in range(n))
    sc = [('as shipped', all_(lambda b: b)), ('absent', all_(lambda b: None)), ('empty', all_(lambda b: b'')),
          ('shipped twice over', all_(lambda b: b + b)), ('one byte longer', all_(lambda b: b + b'\n')),
          ('one byte shorter', all_(lambda b: b[:-1])), ('first half', all_(lambda b: b[:len(b) // 2])),
          ('other bytes of the same length', all_(lambda b: noise(len(b)))),
          ('much longer', all_(lambda b: noise(len(b) + 300000))), ('short', all_(lambda b: noise(17)))]
    for k, f in enumerate(outs):
        sc.append(('%s absent, the others longer' % f, {g: None if g == f else shipped.get(g, b'') + noise(5000) for g in outs}))
    # a byte changed somewhere, as by hand
    for k in range(more):
        def ch(b):
            b = bytearray(b)
            if b:
                b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(7)
            return bytes(b) + noise(rnd.choice([0, 1, 100, 4096]))
        sc.append(('changed %d' % k, all_(ch)))
    return sc


# files that are neither templates nor outputs
STRAY = {'other.generated.go': b'package crunch\n', 'notes.txt': b'notes\n', 'sub/_nested.go': b'package sub\n//generator:complex Buffer Read I 16 LE\n',
         'sub/buffer.generated.go': b'package sub\n', '_notes.md': b'# notes\n', 'buffer.generated.go.orig': b'package crunch\n'}


def strip_pos(x):
    if isinstance(x, dict):
        return {k: strip_pos(v) for k, v in x.items() if k not in ('pos', 'line', 'file', 'loc')}
    if isinstance(x, list):
        return [strip_pos(v) for v in x]
    return x


def fingerprint(pkg):
    out = {}
    for n, f in pkg.funcs.items():
        out[n] = hashlib.sha256(json.dumps([f.params, f.freevars, f.results, f.recv, strip_pos(f.blocks)], sort_keys=True).encode()).hexdigest()
    return out


def w_both(job):
    which, key, kind = job
    pk = T.pkgs if which == 'shipped' else T.pkgs2
    try:
        if kind == 'ctor':
            return job, verify.verify_ctor(pk['v3'], key[1], key[2])
        return job, verify.verify(pk['v3'], T.specs.contracts[key])
    except Exception as e:
        r = verify.Result(str(key))
        r.unsupported = 'internal: %s' % e
        return job, r


def w_diff(job):
    """the same runs on both builds; returns the runs that differ"""
    keys, seed, n = job
    g = concrete.Gen(T.specs, T.pkgs, seed)
    runs = []
    for k in keys:
        if k[1] is None:
            runs += [g.ctor('v3', k[2]) for _ in range(n)]
            continue
        c = T.specs.contracts[k]
        pool = [x for kk, x in T.specs.contracts.items() if kk[0] == k[0] and kk[1] == k[1]]
        for i in range(n):
            r = g.case(c) if i % 4 else g.seq(pool, c)
            if 'calls' in r and (i % 4 == 0 or g.fits(c, r)):
                runs.append(r)
    a = concrete.run_driver(T.exe, runs)
    b = concrete.run_driver(T.exe2, runs)
    bad = [(r, a.get(r['id']), b.get(r['id'])) for r in runs if differs(a.get(r['id']), b.get(r['id']), r)]
    bad.sort(key=lambda x: len(json.dumps(concrete.strip(x[0]))))
    return len(runs), bad[:3]


def differs(a, b, run=None):
    if a is None or b is None:
        return False
    if a.get('timeout') or b.get('timeout'):
        return bool(a.get('timeout')) != bool(b.get('timeout')) and 'call' in (a.get('stage'), b.get('stage'))

    x, y = normal(a), normal(b)
    if x == y:
        return False
    # which error is raised when several apply is left open by the contracts
    if run is not None and no_panics(x) == no_panics(y) and not concrete.judge_run(T.specs, run, a) and not concrete.judge_run(T.specs, run, b):
        return False
    return True


def no_panics(x):
    if isinstance(x, dict):
        return {k: (v is not None if k == 'panic' else no_panics(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [no_panics(v) for v in x]
    return x


def normal(res):
    """a result with addresses replaced by what they are relative to; room of
    storage allocated by the code and texts of run-time panics are dropped"""
    base, pre = res.get('base') or 0, res.get('pre') or {}
    places = [('arena', base, len(pre.get('arena') or '') // 2), ('buf', pre.get('ptr') or 0, pre.get('scap') or 0)]

    def where(p, here):
        for n, lo, k in here:
            if k and lo <= p < lo + k:
                return [n, p - lo]
        return ['elsewhere']

    def clean(x, here):
        if isinstance(x, dict):
            if isinstance(x.get('post'), dict):
                here = here + [('post', x['post'].get('ptr') or 0, x['post'].get('scap') or 0)]
            y = {k: clean(v, here) for k, v in x.items() if k not in ('stack', 'id', 'base')}
            if 'ptr' in x:
                y['ptr'] = where(x['ptr'] or 0, here)
                if y['ptr'][0] in ('elsewhere', 'post'):
                    y.pop('cap', None) if 'scap' not in x else y.pop('scap')
            if x.get('k') in ('rt', 'other') and 's' in x:
                y.pop('s')
            return y
        if isinstance(x, list):
            return [clean(v, here) for v in x]
        return x
    return clean(res, places)


def c17(ck):
    repo, work = T.repo, T.work
    viol, problems = [], []
    gdir, tdir = os.path.join(work, 'generation'), os.path.join(work, 'v3')
    shutil.copytree(os.path.join(repo, 'generation'), gdir, ignore=shutil.ignore_patterns('.git'))
    shutil.copytree(os.path.join(repo, 'v3'), tdir, ignore=shutil.ignore_patterns('.git'))
    exe = os.path.join(work, 'gen')
    p = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=gdir, env=ir.goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError('building the generator failed:\n' + p.stderr)
    src = snapshot(tdir)
    outs = names_of(src)
    shipped_outs = sorted(f for f in src if f.endswith('.generated.go') and '/' not in f)
    files = sorted(set(outs.values()))
    results = {}                      # digest of outputs -> (outputs, scenarios)
    runs = 0
    env = ir.goenv()

    def attempt(name, prior, how):
        nonlocal runs
        shutil.rmtree(tdir)
        for f, b in src.items():
            q = os.path.join(tdir, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if f in files:
                b = prior.get(f)
                if b is None:
                    continue
            open(q, 'wb').write(b)
        for f in files:
            if f not in src and prior.get(f) is not None:
                open(os.path.join(tdir, f), 'wb').write(prior[f])
        if 'newer' in how:
            for f in files:
                q = os.path.join(tdir, f)
                if os.path.exists(q):
                    os.utime(q, (time.time() + 3600,) * 2)
        if 'stray' in how:
            for f, b in STRAY.items():
                q = os.path.join(tdir, f)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, 'wb').write(b)
        before = snapshot(tdir)
        around = sorted(os.listdir(work)), snapshot(gdir)
        args, cwd = {'here': (['-generation', 'complex'], tdir), 'abs': (['-directory', tdir, '-generation', 'complex'], work),
                     'rel': (['-generation', 'complex', '-directory', 'v3'], work)}[how.split()[0]]
        try:
            p = subprocess.run([exe] + args, cwd=cwd, env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            problems.append(('the generator does not finish', name, how))
            return
        runs += 1
        after = snapshot(tdir)
        for f in before:
            if f not in files and after.get(f) != before.get(f):
                problems.append(('the generator %s %s' % ('changes' if f in after else 'removes', f), name, how))
        for f in after:
            if f not in before and f not in files:
                problems.append(('the generator leaves %s behind' % f, name, how))
        if around != (sorted(os.listdir(work)), snapshot(gdir)):
            problems.append(('the generator changes files outside its directory', name, how))
        for f in files:
            if f not in after:
                problems.append(('the generator does not write %s' % f, name, how))
                return
        if p.returncode != 0:
            problems.append(('the generator exits with %d: %s' % (p.returncode, p.stderr[-500:]), name, how))
        o = {f: after[f] for f in files}
        d = hashlib.sha256(json.dumps({f: hashlib.sha256(b).hexdigest() for f, b in o.items()}, sort_keys=True).encode()).hexdigest()
        results.setdefault(d, (o, []))[1].append((name, how))
    more = 6 if T.tier == 'quick' else 60
    sc = scenarios(src, files, T.seed, more)
    for k, (name, prior) in enumerate(sc):
        attempt(name, prior, ['here', 'abs', 'rel stray', 'abs newer', 'here stray'][k % 5])
    for k in range(8):
        attempt('as shipped', dict(sc[0][1]), ['here', 'abs', 'rel'][k % 3] + (' newer' if k > 2 else ''))
        attempt('absent', dict(sc[1][1]), ['rel', 'here', 'abs'][k % 3])
    missing = [f for f in shipped_outs if f not in files]
    if missing:
        problems.append(('no template produces the shipped %s' % ', '.join(missing), '', ''))
    if len(results) > 1:
        a, b = list(results.values())[:2]
        f = next(f for f in files if a[0][f] != b[0][f])
        problems.append(('the output %s depends on the run: after (%s) it is not what it is after (%s): %s' %
                         (f, a[1][0][0], b[1][0][0], first_diff(a[0][f], b[0][f])), b[1][0][0], b[1][0][1]))
    same = len(results) == 1 and all(list(results.values())[0][0][f] == src.get(f) for f in files)
    obls, compared, doc = [], 0, []
    stat = {'runs': 0}
    # the text of the output is that of the shipped files, or its functions
    # have to be shown to behave alike
    for f in files:
        for d, (o, names) in results.items():
            eq = o[f] == src.get(f)
            obls.append({'kind': 'text', 'function': f, 'name': '%s is reproduced byte for byte' % f, 'status': 'proved' if eq else 'open', 'detail': ''})
    nfi = []
    if results and not same and not problems:
        o = list(results.values())[0][0]
        r2 = os.path.join(work, 'repo2')
        shutil.copytree(repo, r2, ignore=shutil.ignore_patterns('.git'))
        for f, b in o.items():
            open(os.path.join(r2, 'v3', f), 'wb').write(b)
        p = subprocess.run(['go', 'build', './...'], cwd=os.path.join(r2, 'v3'), env=env, capture_output=True, text=True)
        if p.returncode != 0:
            problems.append(('the regenerated package does not compile: ' + p.stderr[:1500], 'as shipped', 'abs'))
        else:
            compared, nfi = equivalent(ck, r2, obls, problems, stat)
    for o in obls:
        if o['status'] == 'open':
            o['status'] = 'proved' if not nfi and not problems else 'failed'
            o['name'] = o['name'].replace('is reproduced byte for byte', 'is regenerated with the same behaviour')
    for k, pr in enumerate(problems[:6]):
        what, name, how = pr[:3]
        rec = {'property': 'C17', 'kind': 'run of the generator', 'what': what, 'prior_state_of_outputs': name, 'invocation': how}
        if len(pr) > 3:
            rec.update(pr[3])
        path = ck.replay_file('C17', str(k + 1), rec)
        print(what)
        viol.append('VIOLATION property=C17 replay=%s' % path)
    if nfi and not viol:
        for o in nfi[:8]:
            print('%s: not shown to behave as shipped: %s (%s)' % (o['function'], o['name'], o['detail']))
        path = ck.replay_file('C17', 'undischarged', {'property': 'C17', 'kind': 'obligations not discharged', 'obligations': nfi[:100]})
        viol.append('VIOLATION property=C17 replay=%s no-failing-input-found' % path)
    cov = {'programs': runs, 'disagreements_checked': compared + len(files) * len(results),
           'samples': [{'prior state of the outputs': n, 'invocation': h, 'result': 'as shipped' if same else 'other'} for n, h in
                       (list(results.values())[0][1][:6] if results else [])],
           'obligations': len(obls), 'discharged': sum(o['status'] == 'proved' for o in obls),
           'generated_files': files, 'prior_states': len(sc), 'functions_compared_by_contract': compared,
           'evaluations': runs + stat['runs'],
           'bounded': 'prior states of the output files are a stated list of %d, not all; each output is then compared completely' % len(sc)}
    return viol, {'property': 'C17', 'tier': T.tier, 'seed': T.seed, 'level': 'translation_validation', 'coverage': cov,
                  'assumptions': ['the generator\'s output depends on nothing but the templates, the output files and its arguments',
                                  'two functions proved against the same contract behave alike'] + ck.ASSUME}


def first_diff(a, b):
    x, y = a.split(b'\n'), b.split(b'\n')
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return 'line %d: %r / %r' % (i + 1, p[:200], q[:200])
    return '%d lines / %d lines' % (len(x), len(y))


def equivalent(ck, r2, obls, problems, stat):
    """the regenerated package behaves as the shipped one"""
    try:
        p2 = ir.dump(T.dumper, os.path.join(r2, 'v3'))
    except RuntimeError as e:
        problems.append(('the regenerated package does not load: %s' % str(e)[:1500], 'as shipped', 'abs'))
        return 0, []
    p2.tag = 'v3'
    p1 = T.pkgs['v3']
    T.pkgs2 = dict(T.pkgs, v3=p2)
    fp1, fp2 = fingerprint(p1), fingerprint(p2)
    e1 = {(r, n): f for r, n, f in p1.exported()}
    e2 = {(r, n): f for r, n, f in p2.exported()}
    for k in sorted(set(e1) ^ set(e2), key=str):
        problems.append(('%s is exported by %s only' % ('.'.join(x for x in k if x), 'the shipped code' if k in e1 else 'the regenerated code'), 'as shipped', 'abs'))
    for k in set(e1) & set(e2):
        a, b = e1[k], e2[k]
        if ([t for _, t in a.params], a.results) != ([t for _, t in b.params], b.results):
            problems.append(('%s has another signature in the regenerated code' % '.'.join(x for x in k if x), 'as shipped', 'abs'))
    if problems:
        return 0, []

    def same(k):
        a, b = e1[k], e2[k]
        ns = {a.name} | {n for n in verify.reach(p1, a.name) if n in p1.funcs}
        return all(fp1.get(n) == fp2.get(n) for n in ns)
    diff = [k for k in e1 if not same(k)]
    inits = [n for n in fp1 if n.startswith(p1.path + '.init')]
    nfi = []
    if any(fp1[n] != fp2.get(n) for n in inits) or sorted(p1.globals) != sorted(p2.globals) or \
            json.dumps(p1.types.get(p1.path + '.Buffer')) != json.dumps(p2.types.get(p1.path + '.Buffer')):
        # types and initial values differ: every function has to be compared
        diff = list(e1)
    keys = []
    for k in diff:
        cs = [(c.pkg, c.recv, c.name) for c in T.specs.of('v3', k[0], k[1])] if k[0] else []
        if k[0] is None and k[1] in ('NewBuffer', 'NewMiniBuffer'):
            keys.append((k, ('v3', k[1], k[1][3:]), 'ctor'))
        elif cs:
            keys += [(k, c, 'contract') for c in cs]
        elif k != ('Error', 'Error'):
            nfi.append({'function': str(k), 'kind': 'equivalence', 'name': 'a function without contract differs', 'detail': '', 'status': 'failed'})
    jobs = [(w, key, kind) for _, key, kind in keys for w in ('shipped', 'regenerated')]
    T.exe = concrete.build_driver(os.path.join(T.work, 'd1'), T.repo, ['v3'], T.pkgs, T.specs)
    T.exe2 = concrete.build_driver(os.path.join(T.work, 'd2'), r2, ['v3'], T.pkgs2, T.specs)
    with mp.get_context('fork').Pool(8) as pool:
        dk = [(None if kind == 'ctor' else key) and key or (key[0], None, key[1]) for _, key, kind in keys]
        for rnd in range(2):
            js = [([k], T.seed * 13 + i + 1000 * rnd, 60 if rnd == 0 else 400) for i, k in enumerate(dk)]
            bad = []
            for n, b in pool.imap_unordered(w_diff, js):
                stat['runs'] += n
                bad += b
            if bad:
                bad.sort(key=lambda x: len(json.dumps(concrete.strip(x[0]))))
                r, a, b = bad[0]
                problems.append(('the regenerated code behaves differently from the shipped code: %s' %
                                 (r.get('ctor') or ', '.join(c['fn'] for c in r['calls'])), 'as shipped', 'abs',
                                 {'run': concrete.strip(r), 'shipped': a, 'regenerated': b}))
                return len(keys), []
            if rnd == 0:
                res = dict((j, r) for j, r in pool.imap_unordered(w_both, jobs))
                open_ = []
                for j, r in res.items():
                    for o in r.obls:
                        obls.append({'kind': o.kind, 'function': '%s (%s)' % (r.cid, j[0]), 'name': o.name, 'status': o.status, 'detail': o.detail})
                    if r.unsupported:
                        obls.append({'kind': 'undecided', 'function': '%s (%s)' % (r.cid, j[0]), 'name': 'outside the verifier', 'status': 'failed', 'detail': r.unsupported})
                open_ = [o for o in obls if o['status'] == 'failed']
                if not open_:
                    break
        nfi += [o for o in obls if o['status'] == 'failed']
    return len(keys), nfi
