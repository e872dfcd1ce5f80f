# Calls evaluated by the compilers: sources are generated from recorded calls, compiled, and the constants they hold become events.
from vlib import *
import glob
from concurrent.futures import ThreadPoolExecutor
import itertools
CECOMP = {   # path: (compiler, flags)
    'const-gcc': ('g++', ['-std=c++17', '-DCCM_CONFIG_USE_RT_SIMD', '-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=1000000', '-fconstexpr-depth=2000']),
    'const-clang': ('clang++', ['-std=c++20', '-DCCM_CONFIG_USE_RT_SIMD', '-fconstexpr-steps=500000000', '-Wno-invalid-constexpr']),
    'const-gcc-det': ('g++', ['-std=c++20', '-DCCM_CONFIG_DETERMINISTIC', '-ffp-contract=off', '-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=1000000', '-fconstexpr-depth=2000']),
    'const-clang-det': ('clang++', ['-std=c++17', '-DCCM_CONFIG_DETERMINISTIC', '-ffp-contract=off', '-fconstexpr-steps=500000000', '-Wno-invalid-constexpr']),
}
CT = dict(f='float', d='double', l='long double')
def lit(t, b):
    v, s = fval(t, b); sf = dict(f='f', d='', l='l')[t]
    if isinstance(v, str): return ('-' if s else '') + (f'__builtin_nan{sf}("")' if v == 'nan' else f'__builtin_inf{sf}()')
    if v == 0: return ('-' if s else '') + '0.0' + sf.upper()
    return hexf(t, b) + sf.upper() if '.' in hexf(t, b) or 'p' in hexf(t, b) else hexf(t, b)
ECOMP = {**{'early-' + k[6:]: v for k, v in CECOMP.items()},
    'early-gcc-fma-det': (CECOMP['const-gcc-det'][0], CECOMP['const-gcc-det'][1] + ['-mfma']),
    'early-clang-fma-det': (CECOMP['const-clang-det'][0], CECOMP['const-clang-det'][1] + ['-mfma'])}
WRAP = {}
for w in re.findall(r'^template <class T> constexpr R<T> w_.*$|[UP][123]\(\w+\)', open(os.path.join(V, 'drv', 'ce.hpp')).read(), re.M): WRAP[re.search(r'w_(\w+)|\((\w+)\)', w).group(1) or re.search(r'\((\w+)\)', w).group(1)] = w
def header(f):
    n = dict(hypot3='hypot', tgamma='gamma', fmin='min', fmax='max', scalbln='scalbn').get(f, f); h = glob.glob(os.path.join(REPO, 'include/ccmath/math/*', n + '.hpp'))
    return os.path.relpath(h[0], os.path.join(REPO, 'include')) if h else 'ccmath/ccmath.hpp'
def ce_source(evs, early=False):
    o = [f'#define CE_HEADER <{header(evs[0]["f"])}>', f'#define CE_ONE {WRAP[evs[0]["f"]]}', '#include "ce.hpp"'] if early else ['#include "ce.hpp"']
    for k, e in enumerate(evs):
        a = [lit(atype(e, i), num(x)) for i, x in enumerate(e['a'])]
        if e['f'] in ('ldexp', 'scalbn', 'scalbln'): a.append('(-2147483647-1)' if e['n'] == -2 ** 31 else str(e['n']))
        o.append(f"{'EARLY' if early else 'CALL'}({k}, w_{e['f']}<{CT[e['t']]}>({', '.join(a)}))")
    o.append('int main() {'); o += [f'  ce::out<C{k}>({k});' for k in range(len(evs))]; o.append('}')
    return '\n'.join(o) + '\n'
def ce_events(calls, paths, per=400):
    """calls: recorded events (dicts); returns JSON lines of the same calls evaluated at compile time on each path; nc: not a constant expression"""
    jobs = []
    for p in paths:
        cc, fl = CECOMP[p]
        for i in range(0, len(calls), per):
            src = os.path.join(work(), f'ce-{p}-{i}.cpp'); open(src, 'w').write(ce_source(calls[i:i + per]))
            jobs.append((p, calls[i:i + per], src))
    cmd = [[CECOMP[p][0]] + CECOMP[p][1] + ['-w', '-O0'] + INC + [s, '-o', s[:-4]] for p, c, s in jobs]
    run_cmds(cmd)
    res = []
    for p, cs, s in jobs:
        for l in subprocess.run([s[:-4]], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
            w = l.split(); e = dict(cs[int(w[0])]); nr = len(e['r']); e.update(p=p, fl=0, en=0, ep=0, en2=0)
            if w[1] == '1': e['r'] = [json.loads(x) for x in w[2:4]][:nr]; e['q'] = int(w[4])
            else: e['nc'] = 1; e['r'] = [[0]] * nr; e['q'] = 0
            res.append(json.dumps(e, separators=(',', ':')))
    return res

def early_events(evs):
    """calls that are constant expressions (events of const-*), again as namespace-scope constants of sources that include only the header of their function"""
    jobs = {}
    for e in evs:
        for p in ECOMP:
            if 'nc' not in e and p.replace('-fma', '') == 'early-' + e['p'][6:] and CECOMP[e['p']]: jobs.setdefault((p, e['f']), []).append(e)
    def go(k, cs, n):
        p, f = k; src = os.path.join(work(), f'{p}-{f}{n}.cpp'); open(src, 'w').write(ce_source(cs, True))
        return src, subprocess.run([ECOMP[p][0]] + ECOMP[p][1] + ['-w', '-O0'] + INC + [src, '-o', src[:-4]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).returncode
    def one(k):
        cs = jobs[k]; src, rc = go(k, cs, '')
        if rc and len(cs) > 1:
            r = []
            for i, c in enumerate(cs): s, x = go(k, [c], f'-{i}'); r += read(k, [c], s, x)
            return r
        return read(k, cs, src, rc)
    def read(k, cs, src, rc):
        if rc: return [json.dumps(dict(cs[0], p=k[0], nc=1, q=0, r=[[0]] * len(cs[0]['r'])), separators=(',', ':'))]
        r = []
        for l in subprocess.run([src[:-4]], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
            w = l.split(); e = dict(cs[int(w[0])], p=k[0]); e['r'] = [json.loads(x) for x in w[2:4]][:len(e['r'])]; e['q'] = int(w[4]); r.append(json.dumps(e, separators=(',', ':')))
        return r
    with ThreadPoolExecutor(NCPU) as ex: return [x for r in ex.map(one, sorted(jobs)) for x in r]

# ---- the inputs: a grid of special values for every function, and the generators of the run-time scans
GRID = dict(
    f=[0x7fc00000, 0xffc00000, 0x7f800000, 0xff800000, 0, 0x80000000, 0x3f800000, 0xbfc00000, 1, 0x80000001, 0x7f7fffff, 0x00800000, 0x40490fdb, 0x41200000],
    d=[0x7ff8 << 48, 0xfff8 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0, 1 << 63, 0x3ff0 << 48, 0xbff8 << 48, 1, (1 << 63) | 1, 0x7fefffffffffffff, 0x0010 << 48, 0x400921fb54442d18, 0x4024 << 48],
    l=[(0x7fff << 64) | (3 << 62), (0xffff << 64) | (3 << 62), (0x7fff << 64) | (1 << 63), (0xffff << 64) | (1 << 63), 0, 1 << 79, (0x3fff << 64) | (1 << 63), (0xbfff << 64) | (3 << 62), 1, (1 << 79) | 1, (0x7ffe << 64) | ((1 << 64) - 1), (1 << 64) | (1 << 63), (0x4000 << 64) | 0xc90fdaa22168c235, (0x4002 << 64) | (5 << 61)])
TWO = 'isgreater isgreaterequal isless islessequal islessgreater isunordered copysign fmin fmax fdim fmod remainder remquo nextafter nexttoward pow atan2 hypot'.split()
APPROX = 'pow exp exp2 expm1 log log2 log10 log1p sin cos tan asin acos atan atan2 cbrt hypot hypot3 tgamma lgamma'.split()
def grid_lines(fns):
    o = []
    for f in fns:
        na = 2 if f in TWO else 3 if f in ('fma', 'hypot3') else 1
        for t in 'fdl':
            if t == 'l' and f in APPROX: continue       # the generic kernels compute in double
            S = range(14) if na < 3 else (0, 2, 3, 4, 6, 8, 10, 12)
            for ix in itertools.product(S, repeat=na):
                a = [GRID[t][i] for i in ix]
                if f == 'nexttoward': a[1] = GRID['l'][ix[1]]
                for n in ([0, 1, -1, 100000, -100000, -30] if f in ('ldexp', 'scalbn', 'scalbln') else [0]): o.append(f'{f} {t} 0 {n} ' + ' '.join('%020x' % x for x in a))
    return o
def ce_check(ck, fns, rt='gcc-rt'):
    libs = artifacts({**lib_items([rt]), **tool_item('scan.cpp', 'scan')}); tool = libs['scan']
    exact = [f for f in fns if f not in APPROX]; approx = [f for f in fns if f in APPROX]; rng = random.Random(SEED); N = 20 if THOROUGH else 1
    lines = grid_lines(fns); by = {}
    for l in lines: by.setdefault(tuple(l.split()[:2]), []).append(l)
    calls = rerun(tool, libs[rt], rt, [l for k in by for l in (by[k] if len(by[k]) <= 20 or THOROUGH else rng.sample(by[k], 20))])
    for i, (fn, ty) in enumerate(((exact, 'fdl'), (approx, 'fd'))):
        out = os.path.join(work(), f'ce{i}.ndjson')
        run_scan(tool, libs[rt], out, path=rt, fn=','.join(fn), types=ty, modes='0', n=2000 * N, keep=3 * N, rnd=6 * N, st=20 * N, seed=SEED)
        calls += [x for x in open(out).read().split('\n') if x]
    calls = [json.loads(x) for x in dict.fromkeys(calls)]; calls = [c for c in calls if 'cr' not in c]
    ck.cov['calls'] = len(calls); paths = list(CECOMP)
    ev = ce_events(calls, paths); cnt = {}; sel = []
    for x in ev:            # some constant calls of every function, type and path
        e = json.loads(x); k = (e['p'], e['f'], e['t']); cnt.setdefault(k, [])
        if 'nc' not in e: cnt[k].append(e)
    for k in sorted(cnt): sel += rng.sample(cnt[k], min(len(cnt[k]), 12 if THOROUGH else 3))
    ee = early_events(sel); ck.cov['namespace_scope_constants'] = len(ee); ev += ee
    for x in rng.sample(ev, 3): ck.samples.append(show(json.loads(x)))
    new = []
    for e, why, exp in judge(ck, ev, 'value', timeout=3000):
        k = next((k for k in ck.known if kmatch(k, e, why, exp)), None)
        if k: ck.known_hit(k)
        else: new.append((e, why, exp))
    if os.environ.get('CCM_GROUP'):
        for e, w, x in new[:40]: log(w, show(e), x[:80])
    if new:         # compile the rejected calls again
        for p in paths:
            again = [e for e, _, _ in new if e['p'] == p][:100]
            if not again: continue
            for e, why, exp in judge(ck, ce_events(again, [p], per=20), 'value'):
                ck.violation(f'  {why}: {show(e)}  specification: {exp[:160]}', dict(event=e, why=why, expected=exp, call=show(e), source=ce_source([e]), compiler=CECOMP[p]))
        for e, why, exp in [x for x in new if x[0]['p'] in ECOMP][:100]:
            ck.violation(f'  {why}: {show(e)}  specification: {exp[:160]}', dict(event=e, why=why, expected=exp, call=show(e), source=ce_source([e], True), compiler=ECOMP[e['p']]))
