#!/usr/bin/env python3
"""Driver of all checks.

  run.py C04                 build from /repo's working tree, explore, write evidence, exit 0/1
  run.py --replay FILE       rebuild and re-run one recorded violation
Environment: VERIF_TIER (quick|thorough), VERIF_SEED, VERIF_REPO (default /repo).
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = os.cpu_count() or 8
from checks import CHECKS, VARIANTS, REQUIRES, GXX   # the table of properties

def build(prop, variant, spec, outdir, extra=()):
    out = os.path.join(outdir, variant); src = spec.get('srcs', {}).get(variant) or spec['src']
    base = [f for f in VARIANTS[variant] if not f.startswith('-Wl,')]; link = [f for f in VARIANTS[variant] if f.startswith('-Wl,')] + spec.get('link', [])
    cmd = base + ['-w', '-I' + os.path.join(HERE, 'lib'), '-I' + os.path.join(REPO, 'include')] \
        + spec.get('flags', []) + list(extra) + [os.path.join(HERE, 'harness', s) for s in src]
    t = time.time()
    if 'so' in spec:                    # operations in an instrumented shared object, scheduler in the executable
        inc = ['-w', '-I' + os.path.join(HERE, 'lib'), '-I' + os.path.join(REPO, 'include')]
        cmds = [base + inc + spec.get('flags', []) + ['-fPIC', '-c', os.path.join(HERE, 'harness', spec['so']), '-o', out + '.o'], [base[0], '-shared', out + '.o', '-o', out + '.so'] + link,
                [GXX, '-std=c++17', '-O2', '-rdynamic'] + inc + [os.path.join(HERE, 'harness', s) for s in src] + ['-o', out, '-ldl', '-lpthread']]
    elif '-fsanitize=thread' in base:     # instrumented, but without the run-time library: compile and link separately
        cmds = [cmd + ['-c', '-o', out + '.o'], [base[0], out + '.o', '-o', out] + link]
    else: cmds = [cmd + ['-o', out] + link]
    for cmd in cmds:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode: break
    if p.returncode and spec.get('optional') and not extra:   # internal helpers which this tree does not have (any more)
        probe = lambda n: subprocess.run(base + ['-fsyntax-only', '-w', '-I' + os.path.join(HERE, 'lib'), '-I' + os.path.join(REPO, 'include')] + ['-DNO_' + m for m in spec['optional'] if m != n]
            + spec.get('flags', []) + [os.path.join(HERE, 'harness', s) for s in src], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        lost = [n for n in spec['optional'] if probe(n)]
        if lost and len(lost) < len(spec['optional']):
            print(f'note: variant {variant}: not there in this tree, or called differently: {", ".join(lost)}')
            return build(prop, variant, spec, outdir, ['-DNO_' + n for n in lost])
    return variant, out, p.returncode, p.stdout, cmds[0], time.time() - t

def run_proc(args, timeout):
    env = dict(os.environ, VERIF_TIER=TIER, VERIF_SEED=str(SEED))
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ''
        return 'timeout', o if isinstance(o, str) else o.decode(errors='replace')

FAILRE = re.compile(r'^FAIL case=\[([^\]]*)\] :: (.*)$', re.M)

def known_findings():
    path = os.path.join(HERE, 'known_findings.txt'); out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) match=(\S+) :: (.*)', l.strip())
            if m: out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out

def confirm(binary, case, shard, nsh, limit):
    """Re-run the case alone; if it needs what ran before it, re-run its shard."""
    rc, o = run_proc([binary, '--hang', '60', '--replay'] + case.split(), min(limit, 200))
    if rc == 1 or (isinstance(rc, int) and rc < 0) or (rc == 'timeout'): return ['--replay'] + case.split()
    rc, o = run_proc([binary, '--shard', f'{shard}/{nsh}', '--hang', '60'], limit)
    if rc != 0 and any(m[0] == case for m in FAILRE.findall(o)): return ['--shard', f'{shard}/{nsh}']
    return None

def check(prop):
    spec = CHECKS[prop]; t0 = time.time()
    outdir = os.path.join(HERE, '.build', prop); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    variants = spec['variants'][TIER] if isinstance(spec['variants'], dict) else spec['variants']
    flags = set(re.findall(r'\S+', (re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M) or [0, ''])[1]))
    lacking = [v for v in variants if set(REQUIRES.get(v, [])) - flags]
    for v in lacking: print(f'note: variant {v} needs a processor with {REQUIRES[v]}')
    variants = [v for v in variants if v not in lacking]
    limit = spec.get('limit', {}).get(TIER, 500 if TIER == 'quick' else 6000)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        built = list(ex.map(lambda v: build(prop, v, spec, outdir), variants))
    bins, skipped = [], []
    for v, out, rc, log, cmd, dt in built:
        if rc == 0: bins.append((v, out, cmd))
        else: skipped.append(v); print(f'note: variant {v} does not compile:\n' + '\n'.join(log.splitlines()[:12]))
    if not bins:
        print('ERROR: no variant compiles'); return 2
    tb = time.time() - t0
    nsh = spec.get('shards', {}).get(TIER, 4 if TIER == 'quick' else 8)
    jobs = [(v, out, cmd, s) for s in range(nsh) for (v, out, cmd) in bins]
    with cf.ThreadPoolExecutor(min(JOBS, spec.get('parallel', JOBS))) as ex:
        res = list(ex.map(lambda j: run_proc([j[1], '--shard', f'{j[3]}/{nsh}'], limit), jobs))
    fails, errors, stats = [], [], []
    for (v, out, cmd, s), (rc, o) in zip(jobs, res):
        m = re.search(r'^STATS (.*)$', o, re.M)
        if m: stats.append((v, json.loads(m.group(1), strict=False)))
        fl = FAILRE.findall(o)
        why = re.search(r'[^\n]*(?:runtime error: |ERROR: AddressSanitizer)[^\n]*', o)
        for case, msg in fl[:6]: fails.append((v, out, cmd, s, case, msg + (' :: ' + why.group(0)[:300] if why else '')))
        if not fl and (rc != 0 or not m): errors.append((v, s, rc, o[-1500:]))
    known = [k for k in known_findings() if k[0] == prop]
    violations, printed, seen_known = [], 0, set()
    seen = set(); unconfirmed = []
    for v, out, cmd, s, case, msg in fails:
        hit = [k for k in known if k[1].search(case)]
        if hit: seen_known.add(hit[0][2]); continue
        name = (v, case.split()[0])
        left = (840 if TIER == 'quick' else 12000) - (time.time() - t0)
        if name in seen or len(violations) >= 6 or (violations and left < 400) or left < 20: continue
        args = confirm(out, case, s, nsh, left)
        if args is None: unconfirmed.append((v, case, msg)); continue
        seen.add(name); violations.append((v, cmd, case, msg, args))
    for k in seen_known: print(f'KNOWN-FINDING: property={prop} {k}')
    rdir = os.path.join(HERE, 'evidence', 'replays'); os.makedirs(rdir, exist_ok=True)
    for i, (v, cmd, case, msg, args) in enumerate(violations):
        path = os.path.join(rdir, f'{prop}_{i}.json')
        json.dump(dict(property=prop, variant=v, case=case, message=msg, args=args, build=cmd, tier=TIER, seed=SEED,
                       how=f'python3 {HERE}/run.py --replay {path}'), open(path, 'w'), indent=1)
        print(f'[{v}] {case}: {msg}')
        print(f'VIOLATION property={prop} replay={path}')
    # evidence
    tot = lambda k: sum(st.get(k, 0) for _, st in stats)
    per = {}
    for v, st in stats:
        d = per.setdefault(v, {})
        for k, x in st.items():
            if isinstance(x, int): d[k] = d.get(k, 0) + x
    spaces = {}
    for v, d in per.items():
        sp = spec.get('space', {}).get(v, 'all')
        spaces[sp] = max(spaces.get(sp, 0), d.get('states', d.get('evals', 0)))
    samples = []
    for _, st in stats:
        for x in st.get('samples', []):
            if x not in samples and len(samples) < 6: samples.append(x)
    level = spec['level']
    cov = dict(samples=samples or ['-'], exhaustive=True, variants={v: d for v, d in per.items()}, variants_not_compiling=skipped, variants_unsupported_by_cpu=lacking,
               bounds=spec.get('bounds', ''), build_s=round(tb, 1))
    if level == 'model_checking':
        cov.update(states=sum(spaces.values()), transitions=tot('transitions') or tot('evals'), traces_validated_against_impl=tot('cases'))
    else:
        cov.update(evaluations=tot('evals'), distinct_nontrivial=sum(spaces.values()), rule=spec.get('rule', ''))
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=spec.get('assumptions', []),
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop}: {len(per)} variants, cases={tot("cases")} calls={tot("evals")} violations={len(violations)} wall={ev["wall_s"]}s (build {tb:.0f}s)')
    if violations: return 1
    if unconfirmed:
        for u in unconfirmed: print('ERROR: failure that does not reproduce:', u)
        return 2
    if errors:
        for v, s, rc, o in errors[:4]: print(f'ERROR: {v} shard {s} ended with {rc}\n{o}')
        return 2
    return 0

def replay(path):
    r = json.load(open(path)); prop = r['property']
    outdir = os.path.join(HERE, '.build', 'replay'); os.makedirs(outdir, exist_ok=True)
    v, out, rc, log, cmd, _ = build(prop, r['variant'], CHECKS[prop], outdir)
    if rc: print(log); return 2
    os.environ['VERIF_TIER'] = r['tier']; os.environ['VERIF_SEED'] = str(r['seed'])
    p = subprocess.run([out] + r['args'])
    return p.returncode

if __name__ == '__main__':
    sys.path.insert(0, HERE)
    if len(sys.argv) == 3 and sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1]))
