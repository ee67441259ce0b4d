#!/usr/bin/env python3
"""Build and run the generated-input checks of one property.

  run_check.py PROPERTY quick|thorough      decide a property (exit 0 / exit 1 + VIOLATION line)
  run_check.py --replay FILE                rebuild from /repo and re-run one minimal counterexample
  run_check.py --list

Everything is compiled from /repo's current working tree into a scratch directory which is
removed at the end.  VERIF_SEED selects the generated cases (default 1).
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = os.cpu_count() or 4
BASE = ['-std=c++14', '-O1', '-g1', '-w', '-fmax-errors=2', '-fsanitize=address', '-fno-omit-frame-pointer',
        '-D_GLIBCXX_ASSERTIONS', '-DHIF_THROW', '-I' + REPO + '/src', '-I' + REPO + '/libhifir/include', '-I' + HERE + '/harness']
FUZZ = [f for f in BASE if f not in ('-fmax-errors=2', '-D_GLIBCXX_ASSERTIONS')]
ENV = dict(os.environ, OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='1', LC_ALL='C',
           ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1000000:allocator_may_return_null=1:'
                        'detect_stack_use_after_return=0:quarantine_size_mb=16')


def sh(cmd, timeout=800, env=ENV, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd,
                           errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'time-out: %s' % (e.stdout or '')


def compile_all(jobs):
    """jobs: list of (cmd, out); returns {out: (ok, log)}"""
    res = {}

    def one(j):
        rc, log = sh(j[0])
        return j[1], (rc == 0, log)
    with ThreadPoolExecutor(NCPU) as ex:
        for o, r in ex.map(one, jobs):
            res[o] = r
    return res


def tu_list(b, only_vt=None):
    return [(f, vt) for f in b['src'] for vt in b.get('vts', [0]) if only_vt is None or vt == only_vt]


def build(bins, tmp, only_vt=None, fuzz=False):
    """compile every binary of a check; a translation unit which does not compile drops out alone"""
    cxx, flags = ('clang++', FUZZ + ['-fsanitize=fuzzer-no-link', '-DPBT_FUZZ']) if fuzz else ('g++', BASE)
    jobs, notes, plan = [], [], []
    for k, b in enumerate(bins):
        ex = b.get('flags', [])
        mo = '%s/main%d.o' % (tmp, k)
        jobs.append(([cxx] + flags + ex + ['-c', HERE + '/harness/pbt_main.cpp', '-o', mo], mo))
        objs = []
        for f, vt in tu_list(b, only_vt):
            o = '%s/%s_%d_%d.o' % (tmp, f, vt, k)
            jobs.append(([cxx] + flags + ex + ['-DVT=%d' % vt, '-c', '%s/harness/%s.cpp' % (HERE, f), '-o', o], o))
            objs.append(o)
        req = []
        for i, f in enumerate(b.get('repo_src', [])):
            o = '%s/repo%d_%d.o' % (tmp, i, k)
            jobs.append(([cxx] + flags + ex + ['-O0', '-c', '%s/%s' % (REPO, f), '-o', o], o))  # large file, slow to optimise
            req.append(o)
        plan.append((k, b, mo, objs, req))
    res = compile_all(jobs)
    links, out = [], []
    for k, b, mo, objs, req in plan:
        for o in objs + req + [mo]:
            if not res[o][0]:
                notes.append('did not compile: %s: %s' % (os.path.basename(o), res[o][1][:1500]))
        good = [o for o in objs if res[o][0]]
        if not good or not res[mo][0] or not all(res[o][0] for o in req):
            continue
        exe = '%s/bin%d' % (tmp, k)
        san = ['-fsanitize=address'] + (['-fsanitize=fuzzer'] if fuzz else [])
        links.append(([cxx] + san + good + req + [mo] + b.get('flags', []) + ['-o', exe] + b.get('libs', ['-llapack', '-lblas', '-lm']), exe))
        out.append((b, exe))
    lres = compile_all(links)
    for b, e in out:
        if not lres[e][0]:
            notes.append('did not link: %s' % lres[e][1][:1500])
    return [(b, e) for b, e in out if lres[e][0]], notes


def known_findings(prop):
    keys, lines = [], []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                keys.append(rest.split()[0].split('=', 1)[1])  # key=<name>
                lines.append(rest)
    return keys, lines


def replay(path):
    meta = {}
    body = []
    for l in open(path):
        if l.startswith('#'):
            if '=' in l:
                k, v = l[1:].strip().split('=', 1)
                meta[k.strip()] = v.strip()
        else:
            body.append(l)
    name = body[0].split()[1]
    vt = {'d': 0, 's': 1, 'z': 2, 'c': 3}.get(name.rsplit('.', 1)[-1])
    bi = int(meta.get('binary', 0))
    tmp = tempfile.mkdtemp(prefix='verif.')
    try:
        b = CHECKS[meta['property']]['bins'][bi]
        exes, notes = build([b], tmp, only_vt=vt if vt in b.get('vts', [0]) else None)
        for n in notes:
            print(n)
        f = tmp + '/r'
        open(f, 'w').write(''.join(body))
        if not exes:
            return 2
        rc, out = sh([exes[0][1], '--replay', f], cwd=tmp)
        print(out)
        return 1 if rc == 1 else 0 if rc in (0, 3) else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = CHECKS[prop]
    keys, klines = known_findings(prop)
    env = dict(ENV, PBT_KNOWN=','.join(keys))
    tmp = tempfile.mkdtemp(prefix='verif.')
    agg = dict(ev=0, disc=0, nt=0, distinct=0)
    per, labels, samples, fails, flaky = {}, {}, [], [], []
    try:
        exes, notes = build(chk['bins'], tmp)
        t_build = time.time() - t0
        wall = chk.get('wall', {}).get(tier, 150 if tier == 'quick' else 600)
        for b, exe in exes:
            bi = chk['bins'].index(b)
            out = '%s/out%d' % (tmp, bi)
            os.mkdir(out)
            left = max(20, wall - (time.time() - t0 - t_build))
            e = dict(env, PBT_SCRATCH=out, **b.get('env', {}))
            rc, log = sh([exe, '--run', '--seed', str(seed), '--tier', tier, '--workers', str(max(2, min(NCPU, 8))),
                          '--wall', str(int(left)), '--out', out, '--cpu', '30'], timeout=left + 150, env=e, cwd=out)
            for f in glob.glob(out + '/stat.*'):
                for l in open(f):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    p = per.setdefault(d['prop'], dict(evaluations=0, discarded=0, nontrivial=0))
                    p['evaluations'] += d['ev']
                    p['discarded'] += d['disc']
                    p['nontrivial'] += d['nt']
                    for k in agg:
                        agg[k] += d[k]
                    for k, v in d['labels'].items():
                        labels[k] = labels.get(k, 0) + v
                    if d['samples'] and sum(1 for s in samples if s['check'] == d['prop']) < 1 and len(samples) < 12:
                        samples.append({'check': d['prop'], 'case': d['samples'][0]})
            for f in glob.glob(out + '/flaky.*'):
                flaky += open(f).read().split('\n')
            for f in sorted(glob.glob(out + '/fail.*.json')):
                d = json.load(open(f))
                d['binary'] = bi
                d['choices_txt'] = open(f[:-5] + '.replay').read()
                fails.append(d)
        fails = [d for d in fails if d['reproduced'] == 3] + [d for d in fails if d['reproduced'] != 3]
        sure = [d for d in fails if d['reproduced'] == 3]
        fuzz_note = None
        if tier == 'thorough' and chk.get('fuzz') and not sure:
            fuzz_note, ff = run_fuzz(prop, chk, tmp, seed, env, max(30, 780 - (time.time() - t0)))
            sure += ff
            agg['ev'] += fuzz_note.get('executions', 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    line = None
    seen = set()
    for d in sure:
        if d['prop'] in seen:
            continue
        seen.add(d['prop'])
        os.makedirs(HERE + '/replays', exist_ok=True)
        rp = '%s/replays/%s-%s.replay' % (HERE, prop, d['prop'])
        with open(rp, 'w') as f:
            f.write('# property=%s\n# binary=%d\n# seed=%d\n' % (prop, d['binary'], seed))
            f.write('# replay with: python3 /verif/run_check.py --replay %s\n' % rp)
            for t in ('msg', 'desc'):
                for l in d[t].split('\n'):
                    f.write('#: %s\n' % l[:3000])
            f.write(d['choices_txt'])
        print('counterexample of %s (case %s, shrunk to %s choices): %s' % (d['prop'], d['index'], d['choices'], d['msg'][:800]))
        print('  input: %s' % d['desc'][:1500])
        line = line or 'VIOLATION property=%s replay=%s' % (prop, rp)
    cov = dict(evaluations=agg['ev'], distinct_nontrivial=agg['distinct'], discarded=agg['disc'], rule=chk['rule'],
               samples=samples, per_check=per, labels=labels, build_s=round(t_build, 1))
    if notes:
        cov['build_notes'] = notes
    if flaky:
        cov['not_reproduced'] = [x for x in flaky if x]
    if fuzz_note:
        cov['libfuzzer'] = fuzz_note
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(time.time() - t0, 1),
              violations=len(seen), assumptions=chk.get('assumptions', []))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    for n in notes:
        print('note: ' + n[:1500])
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, build %.1fs, total %.1fs' % (
        prop, tier, seed, agg['ev'], agg['distinct'], agg['disc'], t_build, time.time() - t0))
    for l in klines:
        print('KNOWN-FINDING: property=%s %s' % (prop, l))
    if line:
        print(line)
        return 1
    return 0


def run_fuzz(prop, chk, tmp, seed, env, budget):
    """coverage-guided search over the same properties: libFuzzer mutates choice sequences"""
    info, fails = dict(targets=[], executions=0), []
    os.makedirs(tmp, exist_ok=True)
    bins = [dict(b, vts=b.get('vts', [0])[:1]) for b in chk['bins']]
    exes, notes = build(bins, tmp, fuzz=True)
    plain, _ = build(bins, tempfile.mkdtemp(prefix='p', dir=tmp))
    plain = {chk['bins'][bins.index(b)]['name'] if 'name' in b else bins.index(b): e for b, e in plain}
    targets = []
    for b, exe in exes:
        pe = plain.get(b.get('name', bins.index(b)))
        if not pe:
            continue
        rc, out = sh([pe, '--list'])
        for l in out.split('\n'):
            n = l.split()
            if len(n) == 3 and (chk['fuzz'] is True or any(x in n[0] for x in chk['fuzz'])):
                targets.append((bins.index(b), exe, pe, n[0]))
    if not targets:
        info['notes'] = notes
        return info, fails
    per = max(20, int(budget * NCPU / max(NCPU, len(targets))) - 20)

    def one(t):
        bi, exe, pe, name = t
        d = tempfile.mkdtemp(prefix='f', dir=tmp)
        os.mkdir(d + '/c')
        e = dict(env, PBT_ONLY=name, PBT_SCRATCH=d)
        rc, out = sh([exe, '-seed=%d' % seed, '-max_total_time=%d' % per, '-max_len=4096', '-len_control=50', '-timeout=60',
                      '-rss_limit_mb=3000', '-print_final_stats=1', '-artifact_prefix=' + d + '/', d + '/c'],
                     timeout=per + 120, env=e, cwd=d)
        ex = 0
        cov = ''
        for l in out.split('\n'):
            if 'stat::number_of_executed_units' in l:
                ex = int(l.split(':')[-1])
            if ' cov: ' in l:
                cov = l.strip()[:120]
        fl = None
        for a in glob.glob(d + '/crash-*') + glob.glob(d + '/timeout-*'):
            dump = d + '/dump'
            sh([exe, a], env=dict(e, PBT_DUMP=dump), cwd=d)
            if not os.path.exists(dump):
                continue
            rcs = [sh([pe, '--replay', dump], env=e, cwd=d) for _ in range(3)]
            if all(r[0] == 1 for r in rcs):
                o = rcs[0][1]
                i = o.find('REPLAY-FAIL')
                fl = dict(prop=name, index='libfuzzer', reproduced=3, choices=len(open(dump).readlines()) - 1, msg=o[i + 12:], desc=o[:i],
                          binary=bi, choices_txt=open(dump).read())
        return name, ex, cov, fl
    with ThreadPoolExecutor(NCPU) as ex:
        for name, n, cov, fl in ex.map(one, targets):
            info['targets'].append(dict(target=name, executions=n, last=cov))
            info['executions'] += n
            if fl:
                fails.append(fl)
    return info, fails


if __name__ == '__main__':
    if sys.argv[1] == '--list':
        print('\n'.join(sorted(CHECKS)))
    elif sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    else:
        sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
