#!/usr/bin/env python3
"""Run the solver-based check of one property.

usage: check.py PROPERTY [quick|thorough] [--job NAME] [--keep] [-v]
       check.py --replay FILE          re-run a reported counterexample natively

Every run compiles /repo's current sources to LLVM bitcode, executes the harness
symbolically over it (engine/symx), and writes evidence/PROPERTY.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import json, os, shlex, subprocess, sys, tempfile, time, shutil, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J
REPO = os.environ.get('VERIF_REPO', '/repo')
SYMX = os.path.join(HERE, 'engine', 'symx')
H = os.path.join(HERE, 'harness')
BCF = '-O0 -Xclang -disable-O0-optnone -g -w -fno-builtin'.split()
NATF = ('-g -O1 -fwrapv -fsanitize=address,undefined -fno-sanitize=alignment,shift,signed-integer-overflow,float-cast-overflow,function '
        '-fno-sanitize-recover=all -w -Dmalloc=vp_malloc -Dfree=vp_free -Dcalloc=vp_calloc -Drealloc=vp_realloc').split()
SRC = ['src/embedDB/embedDB.c', 'src/spline/spline.c', 'src/query-interface/schema.c',
       'src/query-interface/advancedQueries.c', 'lib/EmbedDB-Utility/embedDBUtility.c']
DIST = ['lib/Distribution/embedDB.c']
OPT = ['-passes=sroa,early-cse,simplifycfg,early-cse,simplifycfg',
       '-two-entry-phi-node-folding-threshold=100', '-phi-node-folding-threshold=100']


def incs(variant):
    d = ['-I' + H]
    if variant == 'dist':
        return d + ['-I%s/lib/Distribution' % REPO, '-DDIST', '-I%s/lib/Desktop-File-Interface' % REPO]
    return d + ['-I%s/%s' % (REPO, x) for x in ('src', 'src/spline', 'src/embedDB', 'src/query-interface', 'lib/EmbedDB-Utility',
                                                'lib/Desktop-File-Interface')]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError('command failed: %s\n%s' % (cmd[0] + ' ' + cmd[-3], r.stdout[-900:]))
    return r.stdout


class Builder:
    """Per-run build of the repository sources (cached per variant and flags)."""
    def __init__(self, tmp):
        self.tmp, self.lock, self.cache = tmp, threading.Lock(), {}

    def once(self, key, fn):
        with self.lock:
            ent = self.cache.setdefault(key, [threading.Lock(), None])
        with ent[0]:
            if ent[1] is None:
                ent[1] = fn()
            return ent[1]

    def repo_objs(self, job):
        rdefs = job.rdefs
        key = (job.variant, rdefs, job.src)

        def mk():
            tag = hashlib.md5(repr(key).encode()).hexdigest()[:8]
            out = os.path.join(self.tmp, 'lib-' + tag)
            os.makedirs(out)
            srcs = list(job.src) if job.src is not None else (DIST if job.variant == 'dist' else SRC)
            bcs, objs = [], []
            if job.variant == 'diff':      # the sources, and the distribution with every global renamed to dist_*
                return self.diff_objs(out, rdefs)
            for i, s in enumerate(srcs):
                p = s if s.startswith('/') else os.path.join(REPO, s)
                b = os.path.join(out, '%d.bc' % i)
                o = os.path.join(out, '%d.o' % i)
                run(['clang-18'] + BCF + incs(job.variant) + shlex.split(rdefs) + ['-emit-llvm', '-c', p, '-o', b])
                run(['clang-18'] + NATF + incs(job.variant) + shlex.split(rdefs) + ['-c', p, '-o', o])
                bcs.append(b)
                objs.append(o)
            return bcs, objs
        return self.once(key, mk)

    def diff_objs(self, out, rdefs):
        bcs, objs, rd = [], [], shlex.split(rdefs)
        t = os.path.join(out, 't.bc')
        run(['clang-18'] + BCF + incs('dist') + rd + ['-emit-llvm', '-c', os.path.join(REPO, DIST[0]), '-o', t])
        syms = sorted(set(l.split()[-1] for l in run(['llvm-nm-18', t]).splitlines() if len(l.split()) >= 2 and l.split()[-2] in 'TDBC'))
        hd = os.path.join(out, 'rename.h')
        with open(hd, 'w') as f:
            f.writelines('#define %s dist_%s\n' % (x, x) for x in syms)
        for i, s in enumerate(SRC + DIST):
            d = s in DIST
            fl = incs('dist') + ['-include', hd] if d else incs('src')
            b, o = os.path.join(out, '%d.bc' % i), os.path.join(out, '%d.o' % i)
            run(['clang-18'] + BCF + fl + rd + ['-emit-llvm', '-c', os.path.join(REPO, s), '-o', b])
            run(['clang-18'] + NATF + fl + rd + ['-c', os.path.join(REPO, s), '-o', o])
            bcs.append(b)
            objs.append(o)
        return bcs, objs

    def native_rt(self):
        def mk():
            o = os.path.join(self.tmp, 'vp_native.o')
            run(['clang-18', '-g', '-O1', '-w', '-I' + H, '-c', os.path.join(H, 'vp_native.c'), '-o', o])
            return o
        return self.once('rt', mk)

    def build(self, job):
        d = os.path.join(self.tmp, job.name)
        os.makedirs(d, exist_ok=True)
        bcs, objs = self.repo_objs(job)
        hsrc = os.path.join(H, job.harness + '.c')
        hb, ho = os.path.join(d, 'h.bc'), os.path.join(d, 'h.o')
        defs = shlex.split(job.defs)
        run(['clang-18'] + BCF + incs(job.variant) + defs + ['-emit-llvm', '-c', hsrc, '-o', hb])
        run(['llvm-link-18'] + bcs + [hb, '-o', os.path.join(d, 'l.bc')])
        run(['opt-18'] + OPT + [os.path.join(d, 'l.bc'), '-o', os.path.join(d, 'job.bc')])
        run(['clang-18'] + NATF + incs(job.variant) + defs + ['-c', hsrc, '-o', ho])
        run(['clang-18', '-fsanitize=address,undefined'] + objs + [ho, self.native_rt(), '-lm', '-o', os.path.join(d, 'native')])
        return os.path.join(d, 'job.bc'), os.path.join(d, 'native')


def exec_job(pid, b, job, deadline, verbose, cexdir):
    t0 = time.time()
    res = {'job': job.name, 'harness': job.harness, 'defs': job.defs, 'rdefs': job.rdefs, 'variant': job.variant}
    if t0 > deadline - 5:
        res['skipped'] = True
        return res
    try:
        bc, nat = b.build(job)
    except RuntimeError as e:
        res['build_error'] = str(e)
        return res
    res['build_s'] = round(time.time() - t0, 2)
    out = os.path.join(os.path.dirname(bc), 'out.json')
    tl = max(3, min(job.time, deadline - time.time()))
    cmd = [SYMX, bc, '--replay', nat, '--out', out, '--cex', os.path.dirname(bc), '--name', job.name, '--time', '%d' % tl,
           '--validate', str(job.validate)] + job.opts.split() + (['-v'] if verbose else [])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
    lg = open(os.path.join(os.path.dirname(bc), 'log'), 'w')
    try:
        p = subprocess.run(cmd, stdout=lg, stderr=lg, env=env, timeout=tl + 60)
        res['rc'] = p.returncode
    except subprocess.TimeoutExpired:
        res['engine_error'] = 'engine exceeded its time limit'
        return res
    finally:
        lg.close()
    try:
        res.update(json.load(open(out)))
    except Exception as e:
        res['engine_error'] = 'no result (%s): %s' % (e, open(os.path.join(os.path.dirname(bc), 'log')).read()[-1500:])
    for i, v in enumerate(res.get('violations', [])):
        dst = os.path.join(cexdir, '%s-%s-%d.cex' % (pid, job.name, i))
        with open(dst, 'w') as f:
            f.write('# property %s job %s\n# %s\n# at %s\n# native: %s\n' % (pid, job.name, v.get('what'), v.get('at'), str(v.get('native')).replace('\n', ' | ')))
            try:
                f.write(open(v['file']).read())
            except Exception:
                f.write('\n'.join(v.get('inputs', [])) + '\n')
        v['file'] = dst
    return res


def replay(path):
    hdr = open(path).readline().split()
    pid, name = hdr[2], hdr[4]
    job = [j for j in J.JOBS[pid] if j.name == name][0]
    tmp = tempfile.mkdtemp(prefix='vp-')
    try:
        _, nat = Builder(tmp).build(job)
        lines = [l for l in open(path) if not l.startswith('#')]
        c = os.path.join(tmp, 'in.cex')
        open(c, 'w').writelines(lines)
        r = subprocess.run([nat, c], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        print('native exit', r.returncode)
    finally:
        shutil.rmtree(tmp)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    if '--replay' in sys.argv:
        return replay(a[-1])
    verbose, keep = '-v' in sys.argv, '--keep' in sys.argv
    pid = a[0]
    only = None
    if '--job' in sys.argv:
        only = sys.argv[sys.argv.index('--job') + 1]
        a = [x for x in a if x != only]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (J.QUICK_DEADLINE if tier == 'quick' else J.THOROUGH_DEADLINE)
    if not os.path.exists(SYMX):
        subprocess.check_call(['bash', os.path.join(HERE, 'engine', 'build.sh')])
    jl = [j for j in J.JOBS[pid] if (tier == 'thorough' or not j.thorough)]
    if tier == 'thorough':
        jl = [j for j in jl if not j.quick_only]
        if not only:
            for j in jl:
                j.time *= 10
    if only:
        jl = [j for j in J.JOBS[pid] if j.name == only]
    known = J.load_known()
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    cexdir = os.path.join(HERE, 'cex')
    os.makedirs(cexdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    results = []
    rc = 0
    try:
        b = Builder(tmp)
        with ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            fs = [ex.submit(exec_job, pid, b, j, deadline, verbose, cexdir) for j in sorted(jl, key=lambda j: -j.time)]
            for f in fs:
                results.append(f.result())
    finally:
        if keep:
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    byname = {j.name: j for j in jl}
    viol, problems = [], []
    knownhit = {}
    for r in results:
        j = byname[r['job']]
        for v in r.get('violations', []):
            viol.append((r['job'], v))
        for k, what in (r.get('known') or {}).items():
            if k in known and pid in known[k]['properties']:
                knownhit.setdefault(k, what)
            else:
                viol.append((r['job'], {'what': 'unlisted finding ' + k + ': ' + str(what), 'file': os.path.join(cexdir, 'none'), 'at': ''}))
        if 'build_error' in r or 'engine_error' in r:
            problems.append('%s: %s' % (r['job'], r.get('build_error') or r.get('engine_error')))
        if r.get('errors'):
            problems.append('%s: engine limits: %s' % (r['job'], '; '.join(r['errors'])[:500]))
        if r.get('complete') and not r.get('violations'):
            for lab in j.reach:
                if not r['reached'].get(lab):
                    problems.append('%s: label %s never reached (vacuous)' % (r['job'], lab))
        if verbose or only:
            bits = ['%s=%s' % (k, r.get(k)) for k in ('paths', 'killed', 'pending', 'queries', 'solver_s', 'wall_s', 'reached', 'unconfirmed_what', 'fp_refined', 'fp_refuted', 'validation_mismatch', 'known') if r.get(k)]
            print(' ', r['job'], 'complete' if r.get('complete') else 'INCOMPLETE', ' '.join(bits)[:400])
    tot = lambda k: sum(int(r.get(k) or 0) for r in results)
    fns = {}
    for r in results:
        for f in (r.get('functions') or {}):
            n = (r['functions'][f] if isinstance(r['functions'], dict) else 1)
            fns[f] = fns.get(f, 0) + n
    reach = {}
    for r in results:
        for k, n in (r.get('reached') or {}).items():
            reach[k] = reach.get(k, 0) + n
    samples = []
    for r in results:
        for s in (r.get('samples') or [])[:1]:
            samples.append('%s[%s]: %s' % (r['job'], r['defs'], s))
    ncomplete = sum(1 for r in results if r.get('complete'))
    cov = {
        'states': tot('paths') + tot('killed'),
        'transitions': tot('steps'),
        'traces_validated_against_impl': tot('validated'),
        'samples': samples[:8] or ['none'],
        'explanation': 'states = symbolic execution paths (each covers all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically; traces_validated = solver models re-run natively (ASan/UBSan build of the same sources) with identical observations',
        'exhaustive': ncomplete == len(results) and not problems,
        'jobs': [{k: r.get(k) for k in ('job', 'harness', 'defs', 'rdefs', 'variant', 'paths', 'forks', 'complete', 'timed_out', 'pending', 'asserts', 'assert_queries', 'mem_checks', 'mem_queries', 'queries', 'queries_lia', 'queries_full', 'order_unsat', 'models_patched', 'sat', 'unsat', 'unknown', 'solver_s', 'wall_s', 'symbols', 'fp_havoc', 'fp_refined', 'fp_refuted', 'unconfirmed', 'unconfirmed_what', 'blocks_hit', 'blocks_total', 'validated', 'validation_mismatch', 'skipped') if r.get(k) is not None} for r in results],
        'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'queries_unknown': tot('unknown'),
        'solver_s': round(sum(float(r.get('solver_s') or 0) for r in results), 2),
        'asserts_evaluated': tot('asserts'),
        'functions_encoded': sorted(fns),
        'reachability_witnesses': reach,
        'jobs_complete': ncomplete, 'jobs_total': len(results),
        'problems': problems[:20],
        'known_findings_hit': sorted(knownhit),
        'bounds': J.bounds(pid),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': J.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in sorted(knownhit):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]['summary']))
    for p in problems[:6]:
        print('NOTE: ' + p[:1500 if verbose else 600])
    if viol:
        seen = set()
        for jn, v in viol:
            key = (v.get('what'), v.get('at'))
            if key in seen:
                continue
            seen.add(key)
            print('  [%s] %s at %s' % (jn, v.get('what'), v.get('at')))
            print('VIOLATION property=%s replay=%s' % (pid, v['file']))
        rc = 1
    elif any('build_error' in r or 'engine_error' in r for r in results) and not any('paths' in r for r in results):
        rc = 2
    elif any('vacuous' in p for p in problems):
        rc = 2
    print('%s %s: %d jobs (%d complete), %d paths, %d queries, solver %.1fs, wall %.1fs -> %s' % (
        pid, tier, len(results), ncomplete, tot('paths'), tot('queries'), cov['solver_s'], ev['wall_s'], 'VIOLATED' if rc == 1 else ('ERROR' if rc else 'held')))
    return rc


if __name__ == '__main__':
    sys.exit(main())
