#!/usr/bin/env python3-vt
"""Check driver: extract IR from /repo, prove every harness of a property, refute and replay when a proof fails."""
import argparse, glob, json, multiprocessing as mp, os, re, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)

CFLAGS = ['-std=gnu99', '-D_FILE_OFFSET_BITS=64', '-D_REENTRANT', '-D_GNU_SOURCE', '-I' + REPO + '/src/include', '-I' + ROOT + '/specs', '-w']
PASSES = 'function(sroa,simplifycfg,loop-simplify)'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def to_ir(job):
    src, out = job
    c = sh(['clang-18'] + CFLAGS + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks',
                                    '-fwrapv', '-fno-builtin', '-gline-tables-only', '-S', '-emit-llvm', src, '-o', out + '.raw'])
    if c.returncode:
        return src, c.stderr
    extra = ['-phi-node-folding-threshold=40', '-two-entry-phi-node-folding-threshold=40'] if os.path.basename(out).startswith('spec__') else []
    o = sh(['opt-18', '-S'] + extra + ['-passes=' + PASSES, out + '.raw', '-o', out])
    os.unlink(out + '.raw')
    return src, o.stderr if o.returncode else None


def repo_sources():
    return sorted(glob.glob(REPO + '/src/main/*/*.c'))


def extract(bdir, specs):
    jobs = [(s, os.path.join(bdir, os.path.basename(os.path.dirname(s)) + '__' + os.path.basename(s)[:-2] + '.ll')) for s in repo_sources()]
    jobs += [(s, os.path.join(bdir, 'spec__' + os.path.basename(s)[:-2] + '.ll')) for s in specs]
    with mp.Pool(8) as pool:
        res = pool.map(to_ir, jobs)
    bad = [(s, e) for s, e in res if e]
    return [o for _, o in jobs], bad


def options(spec):
    """//@ harness key=value ... lines of a specification file"""
    out = {}
    for ln in open(spec):
        m = re.match(r'//@\s+(\S+)\s+(.*)', ln)
        if m:
            for kv in m.group(2).split():
                k, _, v = kv.partition('=')
                out.setdefault(m.group(1), {})[k] = float(v) if re.fullmatch(r'[0-9.]+', v) else (v or True)
    return out


def harness_names(ll):
    return re.findall(r'^define [^@]*@vp_h__(\w+)\(', open(ll).read(), re.M)


def engine_run(paths, harness, mode, opt, limit, verbose=0):
    """worker: returns a dict"""
    import z3
    from ir import Module
    from engine import Engine
    from core import Unsupported, Budget, StopFirst
    t0 = time.time()
    z3.set_param('memory_max_size', 6000)
    o = {k: (int(v) if isinstance(v, float) and v == int(v) and not k.startswith('t_') else v) for k, v in opt.items()
         if k in ('t_inc', 't_hard', 't_feas', 'bound', 'hdr_unroll', 'recursion', 'max_fail', 'small')}
    o.update(mode=mode, deadline=t0 + limit, verbose=verbose)
    mods = [Module(p) for p in paths]
    E = Engine(mods, repo_prefix=os.path.realpath(REPO) + '/', opt=o)
    res = {'harness': harness, 'mode': mode, 'error': None}
    fn = E.gdef.get('vp_h__' + harness)
    try:
        done = E.run_harness(fn)
        res['finished'] = len(done)
    except (Unsupported, Budget) as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
    except z3.Z3Exception as e:
        res['error'] = 'Z3: %s' % e
    except RecursionError as e:
        res['error'] = 'recursion'
    except Exception as e:
        res['error'] = 'engine: ' + ''.join(traceback.format_exception(e))[-1500:]
    res.update(obl=[[list(k), v] for k, v in E.obl.items()], covers=E.covers, loops=E.loop_notes, backends=E.backends,
               stats=E.sol.stats, paths=E.npaths, states=E.nstates, funcs=E.used_funcs, stubs=sorted(E.used_stubs),
               externals=sorted(E.externals), assumptions=sorted(E.assumptions), bound_hit=E.bound_hit, wall=time.time() - t0,
               failures=[{'name': f.name, 'kind': f.kind, 'loc': f.loc, 'status': f.status, 'inputs': f.inputs, 'detail': f.detail,
                          'cut': getattr(f, 'cut', False), 'stack': f.trace} for f in E.failures])
    return res


def worker(args):
    q, a = args[0], args[1:]
    q.put((a[1], a[2], engine_run(*a)))


def run_parallel(tasks, nproc=8, grace=30):
    """tasks: list of (paths, harness, mode, opt, limit).  Each in its own process with a hard time limit."""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pending = list(tasks)
    running = {}
    out = {}
    while pending or running:
        while pending and len(running) < nproc:
            t = pending.pop(0)
            p = ctx.Process(target=worker, args=((q,) + tuple(t),))
            p.start()
            running[(t[1], t[2])] = (p, time.time() + t[4] + grace, t)
        try:
            h, m, r = q.get(timeout=0.2)
            out[(h, m)] = r
            p, _, _ = running.pop((h, m))
            p.join()
        except Exception:
            pass
        for k, (p, dl, t) in list(running.items()):
            if not p.is_alive() and q.empty():
                time.sleep(0.3)
                if q.empty() and k in running:
                    out[k] = {'harness': k[0], 'mode': k[1], 'error': 'worker died', 'obl': [], 'covers': {}, 'loops': {}, 'backends': {},
                              'stats': {'time': 0}, 'paths': 0, 'states': 0, 'funcs': {}, 'stubs': [], 'externals': [], 'assumptions': [],
                              'bound_hit': False, 'wall': 0, 'failures': []}
                    running.pop(k)
            elif time.time() > dl:
                p.kill()
                out[k] = {'harness': k[0], 'mode': k[1], 'error': 'Budget: hard time limit', 'obl': [], 'covers': {}, 'loops': {}, 'backends': {},
                          'stats': {'time': 0}, 'paths': 0, 'states': 0, 'funcs': {}, 'stubs': [], 'externals': [], 'assumptions': [],
                          'bound_hit': False, 'wall': 0, 'failures': []}
                running.pop(k)
    return out


# ---------------------------------------------------------------- native replay
REDEF = []
for _s in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup'):
    REDEF += ['--redefine-sym', '%s=vp_%s' % (_s, _s)]


def ncompile(job):
    src, out, redef, statics = job
    c = sh(['gcc'] + CFLAGS + ['-DVP_NATIVE', '-g', '-O0', '-fwrapv', '-fno-strict-aliasing', '-fno-builtin', '-fsanitize=address', '-c', src, '-o', out])
    if c.returncode:
        return c.stderr
    if redef:
        c = sh(['objcopy'] + REDEF + [x for n in statics for x in ('--globalize-symbol', n, '--redefine-sym', 'vp_static__%s=%s' % (n, n))] + [out])
        if c.returncode:
            return c.stderr
    return None


def native_build(bdir, spec):
    exe = os.path.join(bdir, 'native_' + os.path.basename(spec)[:-2])
    if os.path.exists(exe):
        return exe, None
    nd = os.path.join(bdir, 'nat')
    os.makedirs(nd, exist_ok=True)
    statics = sorted(set(re.findall(r'VP_STATIC\((\w+)\)', open(spec).read())))
    if statics:
        nd = os.path.join(nd, os.path.basename(spec)[:-2])
        os.makedirs(nd, exist_ok=True)
    jobs = [(spec, os.path.join(nd, 'spec_' + os.path.basename(spec)[:-2] + '.o'), True, statics)]
    rt = os.path.join(nd, 'vp_native.o')
    jobs.append((ROOT + '/native/vp_native.c', rt, False, []))
    objs = [jobs[0][1], rt]
    for s in repo_sources():
        o = os.path.join(nd, os.path.basename(os.path.dirname(s)) + '__' + os.path.basename(s)[:-2] + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, True, statics))
    with mp.Pool(8) as pool:
        errs = [e for e in pool.map(ncompile, jobs) if e]
    if errs:
        return None, errs[0]
    c = sh(['gcc', '-fsanitize=address', '-Wl,--allow-multiple-definition', '-o', exe] + objs + ['-lpthread', '-lm', '-lcrypto', '-lssl'])
    if c.returncode:
        c = sh(['gcc', '-fsanitize=address', '-Wl,--allow-multiple-definition', '-o', exe] + objs + ['-lpthread', '-lm'])
    if c.returncode:
        return None, c.stderr
    return exe, None


ASAN = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:allow_user_poisoning=1')


def write_inputs(path, inputs, header):
    with open(path, 'w') as f:
        for h in header:
            f.write('# %s\n' % h.replace('\n', ' '))
        for e in inputs:
            if e[1] == 'int':
                f.write('i %s %d\n' % (e[0], e[2]))
            elif e[1] == 'obj':
                f.write('o %s %d %s-\n' % (e[0], e[2], e[3]))
            elif e[1] == 'uf':
                f.write('u %s %d %s\n' % (e[0], e[3], ' '.join(str(a) for a in e[2])))
            elif e[1] == 'mfail':
                f.write('m %s 1\n' % e[0])


def native_replay(exe, harness, path, timeout=60):
    try:
        c = sh([exe, harness, 'replay', path], env=ASAN, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    return c.returncode, c.stderr[-3000:]


def native_fuzz(exe, harness, seed, secs, count, dump):
    try:
        c = sh([exe, harness, 'fuzz', str(seed), str(secs), str(count), dump], env=ASAN, timeout=secs + 60, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    return c.returncode, c.stdout[-500:] + c.stderr[-3000:]


# ---------------------------------------------------------------- main
def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known-findings.jsonl')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get('property') == prop and d.get('status') == 'open':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--mode')
    ap.add_argument('-v', type=int, default=0)
    ap.add_argument('--limit', type=float)
    ap.add_argument('--no-refute', action='store_true')
    ap.add_argument('--fuzz', type=float)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    specs = sorted(glob.glob(os.path.join(ROOT, 'specs', a.property + '_*.c')))
    if not specs:
        print('no specification for', a.property)
        return 2
    bdir = os.path.join(ROOT, 'build', '%s.%d' % (a.property, os.getpid()))
    os.makedirs(bdir)
    try:
        return check(a, specs, bdir, seed, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def check(a, specs, bdir, seed, t0):
    paths, bad = extract(bdir, specs)
    if bad:
        for s, e in bad:
            print('EXTRACTION FAILED', s, '\n', e[:2000])
        return 2
    repo_ll = [p for p in paths if not os.path.basename(p).startswith('spec__')]
    thorough = a.tier == 'thorough'
    limit = a.limit or (600 if thorough else 300)
    tasks = []
    info = {}
    for s in specs:
        opts = options(s)
        sp = os.path.join(bdir, 'spec__' + os.path.basename(s)[:-2] + '.ll')
        for h in harness_names(sp):
            if a.only and not re.fullmatch(a.only, h):
                continue
            o = dict(opts.get('*', {}))
            o.update(opts.get(h, {}))
            if thorough:
                o['t_hard'] = max(60.0, float(o.get('t_hard', 30)))
            mode = a.mode or ('bounded' if o.get('bounded') else 'proof')
            info[h] = dict(spec=s, ll=repo_ll + [sp], opt=o, mode=mode)
            tasks.append((repo_ll + [sp], h, mode, o, min(limit, float(o.get('limit', limit))), a.v))
    if a.fuzz:
        for h in info:
            exe, err = native_build(bdir, info[h]['spec'])
            print(err or native_fuzz(exe, h, seed, a.fuzz, 10**9, '/dev/stdout'))
        return 0
    tasks.sort(key=lambda t: -float(t[3].get('cost', 1)))
    results = run_parallel(tasks)
    violations = []
    unproved = []
    rows = []
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    for h, d in info.items():
        r = results[(h, d['mode'])]
        nob = len(r['obl'])
        ndis = sum(1 for k, v in r['obl'] if v[1] == 0 and v[2] == 0)
        bad_cov = [c for c, ok in r['covers'].items() if not ok]
        ok = not r['failures'] and not r['error'] and nob > 0 and not bad_cov and r.get('finished', 0) > 0
        row = dict(harness=h, mode=d['mode'], ok=ok, obligations=nob, discharged=ndis, paths=r['paths'], error=r['error'], covers=r['covers'],
                   loops=r['loops'], stubs=r['stubs'], wall_s=round(r['wall'], 1))
        rows.append(row)
        if ok:
            row['status'] = 'bounded' if d['mode'] == 'bounded' else 'proved'
            continue
        if not r['failures'] and not r['error']:
            row['status'] = 'vacuous'
            print('VACUITY harness=%s covers not reached: %s' % (h, bad_cov or 'no path finishes'))
            unproved.append((h, 'vacuous'))
        for f in r['failures'][:6]:
            print('OBLIGATION FAILED harness=%s [%s] %s at %s (%s%s)' % (h, f['kind'], f['name'], f['loc'], f['status'], ', under loop invariant' if f['cut'] else ''))
        if r['error']:
            print('INCOMPLETE harness=%s %s' % (h, r['error']))
        v = None if a.no_refute else refute(a, h, d, r, bdir, seed)
        if v:
            row['status'] = 'violated'
            violations.append(v)
        else:
            row['status'] = 'unproved (bounded search found nothing)'
            unproved.append((h, r['error'] or 'obligations'))
    ev = evidence(a, rows, results, info, seed, violations, unproved, t0)
    kf = known_findings(a.property)
    code = 0
    for v in violations:
        m = [k for k in kf if k['harness'] == v['harness'] and (k.get('obligation') in (None, v['obligation']))]
        if m:
            print('KNOWN-FINDING: property=%s %s' % (a.property, m[0]['what']))
            continue
        print('violated obligation: %s (%s)' % (v['obligation'], v['loc']))
        print('VIOLATION property=%s replay=%s%s' % (a.property, v['replay'], '' if v['confirmed'] else ' no-failing-input-found'))
        code = 1
    for h, why in unproved:
        print('UNPROVED harness=%s %s (labelled bounded in the evidence)' % (h, why))
    print('%s: %d/%d obligations, %d harnesses, %.1fs, exit %d' % (a.property, ev['coverage']['discharged'], ev['coverage']['obligations'], len(rows), time.time() - t0, code))
    return code


def refute(a, h, d, r, bdir, seed):
    exe, err = native_build(bdir, d['spec'])
    if err:
        print('native build failed:', err[:1500])
    rp = os.path.join(ROOT, 'replays', '%s_%s.txt' % (a.property, h))
    short = h

    def attempt(f, mode):
        if not f['inputs'] and f['inputs'] != []:
            return None
        write_inputs(rp, f['inputs'], ['property %s harness %s obligation [%s] %s at %s' % (a.property, h, f['kind'], f['name'], f['loc']),
                                       'found by %s run; stack: %s' % (mode, ' < '.join(f['stack'])), 'condition: ' + f['detail'][:600]])
        if not exe:
            return None
        rc, out = native_replay(exe, h, rp)
        if rc in (1, 99) or (rc is not None and rc < 0):
            with open(rp, 'a') as g:
                g.write('# native replay exit %s\n' % rc + ''.join('# ' + x + '\n' for x in out.split('\n')[:60]))
            m = re.search(r'VP-FAIL obligation: (.*)', out)
            return dict(harness=h, obligation=m.group(1) if m else f['name'], loc=f['loc'], replay=rp, confirmed=True)
        return None
    for f in r['failures']:
        v = attempt(f, d['mode'])
        if v:
            return v
    definitive = [f for f in r['failures'] if f['status'] == 'sat' and not f['cut']]
    if d['mode'] != 'bounded':
        o = dict(d['opt'])
        o['max_fail'] = 8
        for bound in (3, 6):
            o['bound'] = o['small'] = bound
            rb = run_parallel([(d['ll'], h, 'bounded', o, 60 if bound == 3 else 90, a.v)])[(h, 'bounded')]
            for f in rb['failures']:
                v = attempt(f, 'bounded')
                if v:
                    return v
            definitive += [f for f in rb['failures'] if f['status'] == 'sat']
            if rb['error']:
                break
    if exe:
        dump = os.path.join(bdir, 'dump.txt')
        rc, out = native_fuzz(exe, h, seed, 20, 10**7, dump)
        if (rc in (1, 99) or (rc is not None and rc < 0)) and rc is not None:
            m = re.search(r'VP-FAIL obligation: (.*)', out)
            with open(rp, 'w') as g:
                g.write('# property %s harness %s\n' % (a.property, h))
                if os.path.exists(dump):
                    g.write(open(dump).read())
                g.write('# found by sampling the harness natively after the proof failed; exit %s\n' % rc)
                g.write(''.join('# ' + x + '\n' for x in out.split('\n')[:60]))
            return dict(harness=h, obligation=m.group(1) if m else 'memory safety', loc='native', replay=rp, confirmed=True)
    if definitive:
        f = definitive[0]
        write_inputs(rp, f['inputs'] or [], ['property %s harness %s' % (a.property, h),
                                             'failed obligation [%s] %s at %s' % (f['kind'], f['name'], f['loc']), 'stack: ' + ' < '.join(f['stack']),
                                             'verifier output: %s, condition %s' % (f['status'], f['detail']), 'no failing input was reproduced natively'])
        return dict(harness=h, obligation=f['name'], loc=f['loc'], replay=rp, confirmed=False)
    return None


def evidence(a, rows, results, info, seed, violations, unproved, t0):
    nob = sum(r['obligations'] for r in rows if r['mode'] == 'proof')
    ndis = sum(r['discharged'] for r in rows if r['mode'] == 'proof' and r['status'] == 'proved')
    be = {}
    st = 0.0
    funcs, stubs, ext, assum = set(), set(), set(), set()
    inst = 0
    for r in results.values():
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
        st += r['stats'].get('time', 0)
        funcs |= {f for f, o in r['funcs'].items() if o == 'repo'}
        stubs |= set(r['stubs'])
        ext |= set(r['externals'])
        assum |= set(r['assumptions'])
    allproof = all(r['status'] == 'proved' for r in rows)
    ass = sorted(assum)
    ass += ['contract/stub assumed for ' + s for s in sorted(stubs)]
    ass += ['external function %s returns an arbitrary value and touches no modelled memory' % s for s in sorted(ext)]
    ass += ['termination is not proved', 'single-threaded execution except where a rely condition or lock ghost is stated',
            'signed overflow wraps (-fwrapv), type punning allowed (-fno-strict-aliasing)']
    ev = dict(property=a.property, tier=a.tier, seed=seed, level='proof' if allproof and not violations else 'other',
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt vcg/run.py %s' % a.property,
                            trusted_base=['clang-18 front end and opt-18 sroa/simplifycfg/loop-simplify', 'vcg/*.py (IR semantics, memory model, libc models, loop rule)',
                                          'Z3 5.x', 'cvc5 (fallback)', 'specifications in specs/'],
                            functions_under_contract=sorted(funcs), backends=be, solver_time_s=round(st, 2),
                            harnesses=rows, unproved=[list(u) for u in unproved],
                            bounded=[r['harness'] for r in rows if r['status'] != 'proved']),
              assumptions=ass, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return ev


if __name__ == '__main__':
    sys.exit(main())
