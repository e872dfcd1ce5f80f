# Shared machinery of the checks: building variants, running drivers, judging traces with TLC, known findings, evidence.
import os, sys, json, math, subprocess, hashlib, time, re, shutil, tempfile, fcntl, random
from fractions import Fraction
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCM_REPO', '/repo')
B = os.environ.get('CCM_BUILD', os.path.join(V, 'build'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 8

def log(*a): print(*a, flush=True)

# ---------------------------------------------------------------- building
INC = ['-I', REPO + '/include', '-I', V + '/drv/inc', '-I', V + '/drv']
COM = ['-w', '-O2', '-frounding-math', '-shared', '-fPIC', '-fvisibility=hidden']
GNU = ['-fno-gnu-unique']
SIMDPOW = ['-DCCM_CONFIG_USE_RT_SIMD', '-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW', '-DCCM_CONFIG_DISABLE_RUNTIME_BUILTIN_FMA']
VARIANTS = {   # name: (compiler, flags)
    'gcc-rt':     ('g++', ['-std=c++17', '-DCCM_CONFIG_USE_RT_SIMD']),          # as CMake configures the library by default
    'clang-rt':   ('clang++', ['-std=c++20', '-DCCM_CONFIG_USE_RT_SIMD']),
    'gcc-rt-fma': ('g++', ['-std=c++20', '-mavx2', '-mfma', '-DCCM_CONFIG_USE_RT_SIMD']),
    'clang-rt-fma': ('clang++', ['-std=c++17', '-mavx2', '-mfma', '-DCCM_CONFIG_USE_RT_SIMD']),
    'gcc-noerrno': ('g++', ['-std=c++17', '-DCCM_CONFIG_DISABLE_ERRNO']),
    'gcc-noerrno-det': ('g++', ['-std=c++17', '-DCCM_CONFIG_DISABLE_ERRNO', '-DCCM_CONFIG_DETERMINISTIC', '-ffp-contract=off']),
    'gcc-det':    ('g++', ['-std=c++17', '-DCCM_CONFIG_DETERMINISTIC', '-ffp-contract=off']),
    'clang-det':  ('clang++', ['-std=c++20', '-DCCM_CONFIG_DETERMINISTIC', '-ffp-contract=off']),
    'clang-ce':   ('clang++', ['-std=c++20', '-DV_CE']),
    'clang-nobce': ('clang++', ['-std=c++20', '-DV_CE', '-DV_NOB']),
    'clang-nobrt': ('clang++', ['-std=c++17', '-DV_NOB']),
    'clang-nobrt-avx2': ('clang++', ['-std=c++20', '-DV_NOB', '-mavx2', '-mfma', '-DCCM_CONFIG_USE_RT_SIMD']),
    'clang-nobrt-sse2': ('clang++', ['-std=c++20', '-DV_NOB', '-DCCM_CONFIG_USE_RT_SIMD']),
    'gcc-simd-sse2': ('g++', ['-std=c++17'] + SIMDPOW), 'gcc-simd-sse4': ('g++', ['-std=c++17', '-msse4.2'] + SIMDPOW),
    'gcc-simd-avx2': ('g++', ['-std=c++17', '-mavx2', '-mfma'] + SIMDPOW), 'clang-simd-avx2': ('clang++', ['-std=c++20', '-mavx2', '-mfma'] + SIMDPOW),
}
DETF = ['-DCCM_CONFIG_DETERMINISTIC', '-ffp-contract=off']
DETV = {   # deterministic builds: compiler, language version, optimisation, instruction set
    'det-gcc-O0': ('g++', ['-std=c++20', '-O0']), 'det-gcc-O3-avx2': ('g++', ['-std=c++17', '-O3', '-mavx2', '-mfma', '-DCCM_CONFIG_USE_RT_SIMD']), 'det-gcc-O2-sse4': ('g++', ['-std=c++20', '-O2', '-msse4.2']),
    'det-clang-O0': ('clang++', ['-std=c++17', '-O0']), 'det-clang-O3-avx2': ('clang++', ['-std=c++20', '-O3', '-mavx2', '-mfma', '-DCCM_CONFIG_USE_RT_SIMD']), 'det-clang-O1': ('clang++', ['-std=c++17', '-O1']),
    'det-gcc-ce': ('g++', ['-std=c++17', '-O2', '-DV_CE']), 'det-clang-ce': ('clang++', ['-std=c++20', '-O2', '-DV_CE']),     # what constant evaluation computes
}
def det_items(): return {n: ([cc] + fl + DETF + ['-w', '-shared', '-fPIC', '-fvisibility=hidden'] + (GNU if cc == 'g++' else []) + INC + [V + '/drv/lib.cpp'], '.so') for n, (cc, fl) in DETV.items()}
_treehash = None
def tree_hash():
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        for root in (REPO + '/include', V + '/drv'):
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
        _treehash = h.hexdigest()
    return _treehash

class Locked:
    def __init__(self, name): os.makedirs(B, exist_ok=True); self.f = open(os.path.join(B, name + '.lock'), 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def run_parallel(cmds, jobs=None):
    """cmds: list of (argv, logfile); returns list of return codes."""
    jobs = jobs or NCPU; out = [None] * len(cmds); live = {}; i = 0
    while i < len(cmds) or live:
        while i < len(cmds) and len(live) < jobs:
            live[i] = subprocess.Popen(cmds[i][0], stdout=open(cmds[i][1], 'w'), stderr=subprocess.STDOUT); i += 1
        for k in list(live):
            rc = live[k].poll()
            if rc is not None: out[k] = rc; del live[k]
        time.sleep(0.02)
    return out

def artifacts(items):
    """items: {name: (argv without -o, suffix)} -> {name: path}; cached by the content of /repo/include and the drivers."""
    d = os.path.join(B, 'v'); os.makedirs(d, exist_ok=True); res = {}; todo = []
    with Locked('artifacts'):
        for n, (argv, suf) in items.items():
            k = hashlib.sha256((tree_hash() + ' '.join(argv)).encode()).hexdigest()[:16]
            p = os.path.join(d, f'{n}-{k}{suf}'); res[n] = p
            if not os.path.exists(p): todo.append((n, argv, p, suf))
        if todo:
            for n, argv, p, suf in todo:
                for f in os.listdir(d):
                    if re.fullmatch(re.escape(n) + r'-[0-9a-f]{16}' + re.escape(suf), f): os.unlink(os.path.join(d, f))
            rcs = run_parallel([(argv + ['-o', p + '.tmp'], os.path.join(d, n + '.log')) for n, argv, p, suf in todo])
            for rc, (n, argv, p, suf) in zip(rcs, todo):
                if rc != 0:
                    sys.stderr.write(open(os.path.join(d, n + '.log')).read()[-3000:]); raise SystemExit(f'build of {n} failed')
                os.rename(p + '.tmp', p)
    return res

def lib_items(names, src='lib.cpp', pre=''):
    r = {}
    for n in names:
        cc, fl = VARIANTS[n]
        r[pre + n] = ([cc] + fl + COM + (GNU if cc == 'g++' else []) + INC + [V + '/drv/' + src], '.so')
    return r
def tool_item(src, name, extra=()): return {name: (['g++', '-std=c++17', '-O2', '-frounding-math', '-w'] + list(extra) + [f'-I{V}/drv', f'{V}/drv/{src}', '-ldl'], '')}

def build_java():
    out = os.path.join(B, 'java'); srcs = [os.path.join(V, 'java/vtlc', f) for f in sorted(os.listdir(V + '/java/vtlc'))]
    with Locked('java'):
        st = os.path.join(out, 'stamp'); k = hashlib.sha256(b''.join(open(f, 'rb').read() for f in srcs)).hexdigest()
        if not (os.path.exists(st) and open(st).read() == k):
            os.makedirs(out, exist_ok=True)
            subprocess.run(['javac', '-cp', '/opt/veriftools/tla/tla2tools.jar', '-d', out] + srcs, check=True)
            open(st, 'w').write(k)

# ---------------------------------------------------------------- scratch
_work = None
def work():
    global _work
    if _work is None:
        import atexit
        _work = tempfile.mkdtemp(prefix='ccmv.')
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work

# ---------------------------------------------------------------- TLC
class TlcError(Exception): pass
def tlc(module, cfg, env=None, workers=None, timeout=800, xmx='8g', opts=()):
    """Runs TLC; returns (states, distinct, REJECT tuples, output)."""
    build_java()
    e = dict(os.environ); e.update(env or {}); e['TLC_XMX'] = xmx
    cmd = ['bash', V + '/tools/tlc.sh', V + '/spec/' + module + '.tla', cfg if os.path.isabs(cfg) else V + '/spec/' + cfg, '-workers', str(workers or NCPU)] + list(opts)
    p = subprocess.run(cmd, cwd=work(), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    out = p.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    ok = p.returncode == 0 and 'Model checking completed. No error' in out
    rej = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"') and l.endswith('"'): l = l[1:-1]
        if l.startswith('REJECT|'):
            _, i, why, exp = l.split('|', 3); rej.append((int(i), why, exp.replace('\\"', '"')))
    if not ok: raise TlcError(f'TLC {module}/{cfg} rc={p.returncode}\n' + '\n'.join(out.splitlines()[-40:]))
    return int(m[-1][0]), int(m[-1][1]), rej, out

# ---------------------------------------------------------------- events
def num(l):
    v = 0
    for i, x in enumerate(l[1:]): v |= x << (15 * i)
    return -v if l[0] < 0 else v
def limbs(v):
    if v == 0: return [0]
    s, v = (1, v) if v > 0 else (-1, -v); r = [s]
    while v: r.append(v & 0x7fff); v >>= 15
    return r
PW = dict(f=(24, 8), d=(53, 11), l=(64, 15))
def fval(t, b):
    """encoding -> Fraction, or 'inf' '-inf' 'nan'; second: sign bit"""
    p, w = PW[t]; bias = (1 << (w - 1)) - 1
    if t == 'l': s = b >> 79 & 1; e = b >> 64 & 0x7fff; m = b & ((1 << 64) - 1); frac = m & ((1 << 63) - 1)
    else: s = b >> (p - 1 + w) & 1; e = b >> (p - 1) & ((1 << w) - 1); frac = b & ((1 << (p - 1)) - 1); m = frac | ((1 << (p - 1)) if e else 0)
    if e == (1 << w) - 1: return ('nan' if frac else '-inf' if s else 'inf'), s
    k = max(e, 1) - bias - (p - 1)
    v = Fraction(m) * (Fraction(2) ** k)
    return (-v if s else v), s
def hexf(t, b):
    v, s = fval(t, b)
    if isinstance(v, str): return ('-' if s and v == 'nan' else '') + v
    if v == 0: return '-0' if s else '0'
    m = abs(v); e = 0
    n, d = m.numerator, m.denominator
    L = n.bit_length() - d.bit_length() if n.bit_length() != d.bit_length() else 0
    e = n.bit_length() - d.bit_length()
    if m < Fraction(2) ** e: e -= 1
    fr = m / Fraction(2) ** e - 1; dg = int(fr * 2 ** 64); h = ('%016x' % dg).rstrip('0')
    return f"{'-' if s else ''}0x1{'.' + h if h else ''}p{e}"
def atype(ev, i): return 'l' if ev['f'] == 'nexttoward' and i == 1 else ev['t']
def show(ev):
    a = ', '.join(hexf(atype(ev, i), num(x)) for i, x in enumerate(ev['a']))
    if ev['f'] in ('ldexp', 'scalbn', 'scalbln'): a += f", n={ev['n']}"
    r = 'did not return' if 'cr' in ev else ', '.join(hexf(ev['t'], num(x)) for x in ev['r'])
    return f"{ev['f']}<{ev['t']}>({a}) mode={ev['m']} path={ev['p']} -> [{r}] q={ev['q']} flags={ev['fl']} errno={ev['en']}"

# ---------------------------------------------------------------- known findings
def load_known(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]
def kmatch(k, ev, why, exp=''):
    if ev['f'] not in (k['f'] if isinstance(k['f'], list) else [k['f']]) or ev['t'] not in k['t'] or not re.fullmatch(k.get('p', '.*'), ev['p']): return False
    if 'm' in k and ev['m'] not in k['m']: return False
    if 'why' in k and why != k['why']: return False
    if 'when' in k:
        vs = [fval(atype(ev, i), num(x)) for i, x in enumerate(ev['a'])]
        env = {'Fraction': Fraction, 'abs': abs, 'isinstance': isinstance, 'str': str, 'n': ev['n'], 'int': int, 'fin': lambda v: not isinstance(v, str), 'h': float.fromhex, 'err': ulps(ev, exp), 'float': float, 'log2': log2f, 'allfin': all(not isinstance(v, str) for v, _ in vs),
               'r': [fval(ev['t'], num(x))[0] for x in ev['r']]}
        for i, nm in enumerate('xyz'):
            if i < len(vs): env[nm], env['s' + nm] = vs[i]
        try: return bool(eval(k['when'], {'__builtins__': {}}, env))
        except TypeError: return False
    return True

# ---------------------------------------------------------------- the result of a check
class Check:
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time(); self.viol = []; self.known = load_known(pid); self.seen = set()
        self.states = self.trans = self.traces = 0; self.samples = []; self.cov = {}; self.assum = []
        self.rep = os.path.join(B, 'replay'); os.makedirs(self.rep, exist_ok=True)
    def model(self, module, cfg, **kw):
        t = time.time(); g, d, rej, out = tlc(module, cfg, **kw)
        self.states += d; self.trans += g; self.cov.setdefault('models', {})[module + '/' + os.path.basename(cfg)] = dict(states=d, transitions=g, s=round(time.time() - t, 1))
        return rej, out
    def laws(self, module, consts, inv='Good', **kw):
        """model-checks MODULE with the given constants (init Init, next Next)"""
        f = os.path.join(work(), f'{module}.{len(self.cov.get("models", {}))}.cfg')
        tla = lambda v: ('FALSE', 'TRUE')[v] if isinstance(v, bool) else '{' + ', '.join(tla(x) for x in v) + '}' if isinstance(v, (list, set, tuple)) else f'"{v}"' if isinstance(v, str) else str(v)
        open(f, 'w').write(('CONSTANTS\n' if consts else '') + ''.join(f'  {k} = {tla(v)}\n' for k, v in consts.items()) + f'INIT Init\nNEXT Next\nINVARIANT {inv}\nCHECK_DEADLOCK FALSE\n')
        g, d, rej, out = None, None, None, None
        t = time.time(); g, d, rej, out = tlc(module, f, **kw); self.states += d; self.trans += g
        self.cov.setdefault('models', {})[f'{module} ' + ', '.join(f'{k}={tla(v)}' for k, v in consts.items())] = dict(states=d, transitions=g, s=round(time.time() - t, 1))
    def violation(self, what, replay_obj):
        p = os.path.join(self.rep, f'{self.pid}-{len(self.viol)}.json'); json.dump(replay_obj, open(p, 'w'), indent=1)
        self.viol.append((what, p))
    def known_hit(self, k): self.seen.add(k['id'])
    def finish(self, level='model_checking'):
        for k in self.known:
            if k['id'] in self.seen: log(f"KNOWN-FINDING: property={self.pid} {k['id']}: {k['text']}")
        os.makedirs(V + '/evidence', exist_ok=True)
        cov = dict(self.cov); cov.update(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces, samples=self.samples[:6])
        json.dump(dict(property=self.pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=self.assum, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol)),
                  open(f'{V}/evidence/{self.pid}.json', 'w'), indent=1)
        if self.viol:
            for w, p in self.viol[:5]: log(w)
            log(f'VIOLATION property={self.pid} replay={self.viol[0][1]}')
            sys.exit(1)
        log(f'{self.pid}: held on everything explored ({self.traces} traces, {self.states} states, {time.time() - self.t0:.1f} s)')
        sys.exit(0)

# ---------------------------------------------------------------- scanning and judging
def run_scan(tool, lib, out, **o):
    p = subprocess.run([tool, lib, out] + [f'{k}={v}' for k, v in o.items()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise SystemExit('scan failed: ' + p.stdout[-500:])
    m = re.search(r'evals=(\d+)', p.stdout); return int(m.group(1)) if m else 0

def ulps(ev, exp):
    m = re.match(r'<<"about", (\d), <<(-?[\d, ]+)>>, (-?\d+)>>', exp)
    if not m or not ev['r']: return None
    v = num([int(x) for x in m.group(2).split(',')]) * Fraction(2) ** int(m.group(3)) * (-1 if m.group(1) == '1' else 1)
    y, _ = fval(ev['t'], num(ev['r'][0])); p, w = PW[ev['t']]
    if isinstance(y, str): return None
    a = abs(v); e = a.numerator.bit_length() - a.denominator.bit_length(); e = e - 1 if a < Fraction(2) ** e else e
    u = Fraction(2) ** (max(e, 2 - (1 << (w - 1))) - (p - 1))
    return float(max(min((y - v) / u, Fraction(10) ** 300), -Fraction(10) ** 300))
def err_ulps(ev, exp):
    e = ulps(ev, exp); return '' if e is None else ' error %.4g ulp' % e
def log2f(v):
    v = abs(v); d = v - 1
    return math.log1p(float(d)) / math.log(2) if abs(d) < 0.5 else math.log2(v.numerator) - math.log2(v.denominator)

def inline(ev): return f"{ev['f']} {ev['t']} {ev['m']} {ev['n']} " + ' '.join('%020x' % num(x) for x in ev['a'])

def judge(ck, events, what, chunk=64, timeout=800):
    """events: list of JSON lines; returns rejected [(event, why, expected)]"""
    if not events: return []
    f = os.path.join(work(), 'trace.ndjson')
    with open(f, 'w') as h: h.write('\n'.join(events) + '\n')
    g, d, rej, out = tlc('CcmTrace', 'CcmTrace.cfg', env=dict(TRACE=f, CHUNK=str(chunk), WHAT=what), timeout=timeout)
    if d < len(events): raise TlcError(f'TLC explored {d} states for {len(events)} events')
    ck.states += d; ck.trans += g; ck.traces += (len(events) + chunk - 1) // chunk
    ck.cov['events_judged'] = ck.cov.get('events_judged', 0) + len(events)
    return [(json.loads(events[i - 1]), why, exp) for i, why, exp in rej]

def scan_and_judge(ck, scans, what):
    """scans: list of dict(v=variant, fn=[..], types=, modes=, n=, keep=, rnd=, st=, ...)"""
    libs = artifacts({**lib_items(sorted({s['v'] for s in scans} | {v for k in ck.known for v in k.get('variants', [])})), **tool_item('scan.cpp', 'scan')})
    tool = libs['scan']; events = []; evals = 0
    for i, s in enumerate(scans):
        o = dict(s); v = o.pop('v'); fn = o.pop('fn'); out = os.path.join(work(), f'scan{i}.ndjson')
        o.setdefault('tmo', 40); o.setdefault('seed', SEED)
        if what == 'flags': o['flags'] = 1
        n = run_scan(tool, libs[v], out, path=v, fn=','.join(fn), **o); evals += n
        L = open(out).read().split('\n'); events += [x for x in L if x]
        if os.path.exists(out + '.crash'): events += [x for x in open(out + '.crash').read().split('\n') if x]
        if os.environ.get('CCM_KEEP'): shutil.copy(out, os.environ['CCM_KEEP'] + f'/{ck.pid}-{i}-{v}.ndjson')
        os.unlink(out)
    for k in ck.known:      # the listed findings are always replayed
        if 'witness' in k:
            for v in k['variants']:
                if v in libs: events += rerun(tool, libs[v], v, [k['witness']])
    events = list(dict.fromkeys(events))
    ck.cov['calls_screened'] = ck.cov.get('calls_screened', 0) + evals
    rng = random.Random(SEED)
    for x in rng.sample(events, min(3, len(events))): ck.samples.append(show(json.loads(x)))
    rej = judge(ck, events, what)
    new = []
    for ev, why, exp in rej:
        k = next((k for k in ck.known if kmatch(k, ev, why, exp)), None)
        if k: ck.known_hit(k)
        else: new.append((ev, why, exp))
    ck.cov['rejected_known'] = ck.cov.get('rejected_known', 0) + len(rej) - len(new)
    if new and os.environ.get('CCM_GROUP'):
        g = {}
        for e, w, x in new: g.setdefault((w, e['f'], e['t'], e['p']), []).append((e, x))
        for k in sorted(g): log(k, len(g[k]), sorted({e['m'] for e, _ in g[k]})); [log('    ', show(e), x[:60], err_ulps(e, x)) for e, x in g[k][:int(os.environ['CCM_GROUP'])]]
    if new:     # run the rejected calls again, each in a process of its own, and judge again
        new = new[:400]; ev2 = []
        for v in sorted({e['p'] for e, _, _ in new}): ev2 += rerun(tool, libs[v], v, [inline(e) for e, _, _ in new if e['p'] == v])
        for ev, why, exp in judge(ck, ev2, what):
            if any(kmatch(k, ev, why, exp) for k in ck.known): continue
            ck.violation(f'  {why}: {show(ev)}  specification: {exp[:160]}{err_ulps(ev, exp)}', dict(event=ev, why=why, expected=exp, call=show(ev), rerun=inline(ev), variant=ev['p']))
    return ck

def rerun(tool, lib, path, lines, tmo=20):
    i = os.path.join(work(), 'in.txt'); o = os.path.join(work(), 'in.out'); open(i, 'w').write('\n'.join(lines) + '\n')
    p = subprocess.run([tool, lib, o, 'in=' + i, 'path=' + path, f'tmo={tmo}'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise SystemExit('rerun failed ' + p.stdout)
    return [x for x in open(o).read().split('\n') if x]

# ---------------------------------------------------------------- sessions
def run_cmds(cmds, jobs=None):
    logs = [os.path.join(work(), f'cmd{i}.log') for i in range(len(cmds))]
    for c, l, rc in zip(cmds, logs, run_parallel(list(zip(cmds, logs)), jobs)):
        if rc != 0: raise SystemExit(f'{" ".join(c)} failed\n' + open(l).read()[-800:])
def trace_and_judge(ck, src, module, plans, env=None, libs=None, link=(), tool=None):
    """plans: list of dict(v=variant, key=value...): `TOOL LIB OUT path=v key=value...` records sessions that MODULE judges.
    Rejected plans are recorded again and judged again before anything is reported."""
    name = os.path.splitext(src)[0] if src else None
    libs = libs or artifacts({**lib_items(sorted({p['v'] for p in plans})), **tool_item(src, name)}); tool = tool or libs[name]
    def record(ps, tag):
        cmds, outs = [], []
        for i, p in enumerate(ps):
            o = dict(p); v = o.pop('v'); f = os.path.join(work(), f'{tag}{i}.ndjson'); outs.append(f)
            cmds.append([tool, libs[v], f, f'path={v}'] + [f'{k}={x}' for k, x in dict(dict(seed=SEED), **o).items()])
        run_cmds(cmds); return [[l for l in open(f).read().split('\n') if l] for f in outs]
    def rejected(evs):
        ev = [l for x in evs for l in x]; f = os.path.join(work(), 'sess.ndjson'); open(f, 'w').write('\n'.join(ev) + '\n')
        g, d, rej, out = tlc(module, module + '.cfg', env=dict(dict(TRACE=f), **(env or {}))); ck.states += d; ck.trans += g
        st = sum('"k":"start"' in l[:14] for l in ev)
        if d < (len(ev) if st == 0 else len(ev) - st): raise TlcError(f'TLC explored {d} states for {len(ev)} events')
        own = [k for k, x in enumerate(evs) for _ in x]; res = []
        for i, why, exp in rej:
            j = i
            while j > 1 and not ev[j - 1].startswith('{"k":"start"'): j -= 1
            res.append((own[i - 1], ev[j - 1], ev[i - 1], why, exp))
        return res, st, len(ev)
    evs = record(plans, 's'); rej, st, n = rejected(evs); ck.traces += st or n; ck.cov['events_judged'] = ck.cov.get('events_judged', 0) + n
    al = [l for x in evs for l in x]
    for l in random.Random(SEED).sample(al, min(3, len(al))): ck.samples.append(l[:300])
    if rej:
        again = [plans[k] for k in sorted({r[0] for r in rej})]; rej2, _, _ = rejected(record(again, 'r')); seen = set(); hit = 0
        for k, start, event, why, exp in rej2:
            kn = next((x for x in ck.known if re.search(x.get('path', '.*'), again[k]['v']) and re.search(x.get('start', '.*'), start) and re.search(x.get('event', '.*'), event) and x.get('why', why) == why), None)
            if kn: ck.known_hit(kn); continue
            if (start, why) in seen: continue
            seen.add((start, why)); ck.violation(f'  {why}: {start[:400]} ... {event[:400]}  {exp[:300]}', dict(plan=again[k], seed=SEED, start=start, event=event, why=why, state=exp, tool=os.path.basename(tool)))
    return ck
