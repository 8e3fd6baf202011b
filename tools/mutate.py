#!/usr/bin/env python3
"""Self-assessment: plant one small change after another in a copy of the headers and see which checks notice.

  mutate.py FILE[:FROM-TO] [--sample N] [--out DIR]   (FILE relative to include/bitlib)
A mutant is first tried with one build variant of each property the file maps to, then, if it survives, with the whole
quick checks. Survivors are listed in DIR/survivors.txt, to be examined by hand. No check depends on this tool.
"""
import sys, os, re, subprocess, shutil, random, json, concurrent.futures as cf, argparse, time, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS
REPO = os.environ.get('VERIF_REPO', '/repo')
MAP = {'copy.hpp': ['C01', 'C14'], 'move.hpp': ['C01', 'C14'], 'copy_backward.hpp': ['C02', 'C14'], 'fill.hpp': ['C03', 'C14'], 'shift.hpp': ['C04', 'C05', 'C14'], 'rotate.hpp': ['C06', 'C14'],
       'reverse.hpp': ['C07', 'C14'], 'swap_ranges.hpp': ['C08', 'C14'], 'transform.hpp': ['C09', 'C10', 'C14'], 'count.hpp': ['C11', 'C14'], 'find.hpp': ['C12', 'C14'], 'equal.hpp': ['C13', 'C14'],
       'bit_algorithm_details.hpp': ['C01', 'C04', 'C08', 'C29'], 'libpopcnt.h': ['C11'], 'bit_iterator.hpp': ['C16', 'C30'], 'bit_pointer.hpp': ['C17'], 'bit_reference.hpp': ['C18', 'C30'],
       'bit_value.hpp': ['C18'], 'bit_details.hpp': ['C29', 'C16'], 'bit_vector.hpp': ['C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27']}
OPS = [(r'(?<![<>=!+\-*/&|^])<=(?!=)', ['<', '==']), (r'(?<![<>=!\-])>=(?!=)', ['>', '==']), (r'==', ['!=', '<=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r' < ', [' <= ', ' != ']), (r' > ', [' >= ', ' != ']), (r' \+ ', [' - ', ' + 1 + ']), (r' - ', [' + ', ' - 1 - ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' % ', [' / ', ' & ']),
       (r' << ', [' >> ']), (r' >> ', [' << ']), (r' & ', [' | ']), (r' \| ', [' & ', ' ^ ']), (r' \^ ', [' | ']), (r'\+\+', ['--']), (r'--', ['++']), (r'\+= ', ['-= ']), (r'-= ', ['+= ']),
       (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'\bdigits\b', ['(digits - 1)', '(digits + 1)']), (r'~', ['']), (r'(?<![\w=])!(?!=)', ['']),
       (r'\bfirst\b(?!\()', ['last']), (r'\blast\b(?!\()', ['first']), (r'std::min', ['std::max']), (r'std::max', ['std::min']), (r'\bbit0\b', ['bit1']), (r'\bbit1\b', ['bit0']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\bset\(\)', ['reset()']), (r'\breset\(\)', ['set()']), (r'std::next\(', ['std::prev(']), (r'std::prev\(', ['std::next(']), (r'\blhs\b', ['rhs']), (r'\brhs\b', ['lhs']), (r'\.position\(\)', ['.position() + 1']),
       (r'\bsize_type (?=\w+ =)', ['unsigned char ', 'int ']), (r'\bdifference_type (?=\w+ =)', ['int ']), (r'_shrd', ['_shld']), (r'_tzcnt', ['_lzcnt'])]

def mutants(path, lo, hi):
    lines = open(path).read().split('\n'); out = []
    depth = 0; inc = False
    for i, l in enumerate(lines):
        s = l.strip(); inc = inc or s.startswith('/*')
        if inc:
            if '*/' in s: inc = False
            continue
        if not s or s.startswith(('//', '#', 'template', '*', 'static_assert', 'assert', 'using', 'friend')) or not lo <= i + 1 <= hi: continue
        code = l.split('//')[0]
        if 'assert(' in code and '_position' not in code: continue
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if 'template' in code or (pat in (r' < ', r' > ') and re.search(r'<\w+>', code[m.start()-20:m.end()+2] or '')): continue
                for r in reps: out.append((i, code[:m.start()] + r + code[m.end():] + l[len(code):]))
        if s.endswith(';') and not re.match(r'(const|constexpr|return|typename|auto|size_type|difference_type|word_type|using|int|bool|throw|friend|static|typedef|namespace)\b', s) and '(' in s or re.match(r'^(\+\+|--)?\w+(\+\+|--)?;$', s):
            out.append((i, re.match(r'\s*', l).group() + ';'))
    return lines, out

def has_hwy(lines, i):
    d = 0; st = []
    for k in range(i):
        s = lines[k].strip()
        if s.startswith('#if'): st.append('BITLIB_HWY' in s)
        elif s.startswith('#endif') and st: st.pop()
        elif s.startswith('#else') and st: st[-1] = False
    return any(st)

def first_stage(prop, inc, work, hwy):
    spec = CHECKS[prop]; vs = spec['variants']['quick'] if isinstance(spec['variants'], dict) else spec['variants']
    v = next((x for x in vs if 'hwy' in x), vs[0]) if hwy else vs[0]
    if prop == 'C14': v = 'gcc17hwy' if hwy else 'gcc17'
    if prop == 'C15': return False
    exe = os.path.join(work, 'x_' + prop)
    cmd = VARIANTS[v] + ['-w', '-I' + HERE + '/lib', '-I' + inc] + spec.get('flags', []) + [HERE + '/harness/' + s for s in spec['src']] + ['-o', exe] + spec.get('link', [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode: return 'nocompile'
    nsh = spec.get('shards', {}).get('quick', 4)
    for s in range(nsh):
        try: q = subprocess.run([exe, '--shard', f'{s}/{nsh}', '--hang', '10'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=150, env=dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1'))
        except subprocess.TimeoutExpired: return 'killed:timeout'
        if q.returncode: return 'killed:' + prop
    os.remove(exe); return False

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('file'); ap.add_argument('--sample', type=int, default=0); ap.add_argument('--out', default='/tmp/mut'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--stage1', action='store_true')
    a = ap.parse_args(); f, _, r = a.file.partition(':'); lo, hi = map(int, r.split('-')) if r else (1, 10**9)
    path = os.path.join(REPO, 'include/bitlib', f); lines, ms = mutants(path, lo, hi)
    random.Random(a.seed).shuffle(ms); ms = ms[:a.sample] if a.sample else ms
    os.makedirs(a.out, exist_ok=True); props = MAP[os.path.basename(f)]; lock = threading.Lock(); res = {}; t0 = time.time()
    def one(k):
        i, new = ms[k]; work = os.path.join(a.out, 'w%d_%s' % (k, os.path.basename(f).replace('.', '_'))); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
        inc = work + '/repo/include'; shutil.copytree(os.path.join(REPO, 'include'), inc)
        L = list(lines); L[i] = new; open(os.path.join(inc, 'bitlib', f), 'w').write('\n'.join(L))
        hwy = has_hwy(lines, i); r = False; tried = []
        for p in props:
            r = first_stage(p, inc, work, hwy)
            if r: break
        with lock: res[k] = r; print(f'{len(res)}/{len(ms)} {f}:{i+1} {r or "survives stage 1"}  {time.time()-t0:.0f}s', flush=True)
        if r: shutil.rmtree(work)
        return k, r, work
    with cf.ThreadPoolExecutor(a.jobs) as ex: done = list(ex.map(one, range(len(ms))))
    out = open(os.path.join(a.out, 'survivors.txt'), 'a'); n = dict(killed=0, nocompile=0, survived=0)
    for k, r, work in done:
        i, new = ms[k]
        if not r and not a.stage1:
            for p in props + ['C28'] * bool(re.search(r'\b(int|unsigned char) ', new)):
                q = subprocess.run([sys.executable, HERE + '/run.py', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=work + '/repo', VERIF_TIER='quick', VERIF_SEED='1'))
                if q.returncode == 1: r = 'killed:' + p + ' (all variants)'; break
                if q.returncode == 2: r = 'killed:' + p + ' (no answer)'; out.write(f'ANSWERLESS {p} {f}:{i+1} {new}\n{q.stdout[-600:]}\n'); break
            print(f'stage 2 {f}:{i+1} {r or "SURVIVES"}', flush=True)
        if not r: out.write(f'{f}:{i+1}\n  - {lines[i]}\n  + {new}\n'); n['survived'] += 1
        elif r == 'nocompile': n['nocompile'] += 1
        else: n['killed'] += 1
        out.flush(); shutil.rmtree(work, ignore_errors=True)
    print(f, n); out.write(f'# {f} {n}\n')
if __name__ == '__main__': main()
