# C19: the same calls in several deterministic builds and in the compilers' constant evaluation.
from vlib import *
from ce import ce_events, CECOMP, APPROX
BUILDS = ['gcc-det', 'clang-det'] + list(DETV)
CEP = ['const-gcc-det', 'const-clang-det']
def items(): return {**lib_items(['gcc-det', 'clang-det']), **det_items(), **tool_item('det.cpp', 'det'), **tool_item('scan.cpp', 'scan')}
def dshow(e):
    a = ', '.join(hexf(atype(e, i), num(x)) for i, x in enumerate(e['a']))
    return f"{e['f']}<{e['t']}>({a}; n={e['n']}): " + '; '.join(f"{o['p']}: [{', '.join(hexf(e['t'], num(x)) for x in o['r'])}] q={o['q']}" + (' not constant' if 'nc' in o else '') for o in e['rs'])
def judge_det(ck, evs):
    f = os.path.join(work(), 'det.ndjson'); open(f, 'w').write('\n'.join(json.dumps(e, separators=(',', ':')) for e in evs) + '\n')
    g, d, rej, out = tlc('DetTrace', 'DetTrace.cfg', env=dict(TRACE=f), timeout=3000)
    if d < len(evs): raise TlcError(f'TLC explored {d} states for {len(evs)} events')
    ck.states += d; ck.trans += g; ck.traces += len(evs); ck.cov['events_judged'] = ck.cov.get('events_judged', 0) + len(evs)
    return [evs[i - 1] for i, _, _ in rej]
def add_ce(evs, per=400):
    calls = [dict(e, r=e['rs'][0]['r'], q=0) for e in evs]
    # ce_events returns the calls of a path in order
    for p in CEP:
        for e, l in zip(evs, ce_events(calls, [p], per)):
            c = json.loads(l); e['rs'].append({k: c[k] for k in ('p', 'r', 'q', 'nc') if k in c})
def dmatch(k, e):
    if e['f'] not in k['f'] or e['t'] not in k['t']: return False
    o = [x for x in e['rs'] if 'nc' not in x and not re.fullmatch(k['p'], x['p'])]      # the builds the finding does not name still agree
    return len({json.dumps([[hexf(e['t'], num(y)) for y in x['r']], x['q']]) for x in o}) <= 1
def det_check(ck, fns):
    a = artifacts(items()); rng = random.Random(SEED); evs = []
    def record(fn, out, **o):
        p = subprocess.run([a['det'], ','.join(a[b] for b in BUILDS), out, 'names=' + ','.join(BUILDS), 'fn=' + ','.join(fn), f'seed={o.pop("seed", SEED)}'] + [f'{k}={v}' for k, v in o.items()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise SystemExit('det failed: ' + p.stdout[-500:])
        ck.cov['calls_compared'] = ck.cov.get('calls_compared', 0) + int(re.search(r'evals=(\d+)', p.stdout).group(1))
        return [json.loads(l) for l in open(out).read().split('\n') if l]
    N = 40 if THOROUGH else 1
    evs = record(fns, os.path.join(work(), 'd.ndjson'), types='fdl', n=(6000000 if THOROUGH else 800000), keep=12, rnd=6 * N, st=12 * N, tmo=800)
    ce = [e for e in evs if e['t'] != 'l' or e['f'] not in APPROX]; add_ce(ce)
    for e in rng.sample(evs, 3): ck.samples.append(dshow(e)[:600])
    new = []
    for e in judge_det(ck, evs):
        k = next((k for k in ck.known if dmatch(k, e)), None)
        if k: ck.known_hit(k)
        else: new.append(e)
    if os.environ.get('CCM_GROUP'):
        g = {}
        for e in new: g.setdefault((e['f'], e['t']), []).append(e)
        for k in g: log(k, len(g[k])); [log('   ', dshow(e)) for e in g[k][:int(os.environ['CCM_GROUP'])]]
    if new:      # call again: each in a process of its own, and the constants compiled again
        by = {}; lines = [inline(e) for e in new[:200]]; again = []
        for b in BUILDS: by[b] = [json.loads(x) for x in rerun(a['scan'], a[b], b, lines)]
        for i, e in enumerate(new[:200]): again.append(dict(f=e['f'], t=e['t'], m=0, a=e['a'], n=e['n'], rs=[dict(p=b, r=by[b][i]['r'] or [[0]], q=by[b][i]['q']) for b in BUILDS]))
        add_ce([e for e in again if e['t'] != 'l' or e['f'] not in APPROX], 20)
        for e in judge_det(ck, again):
            if not any(dmatch(k, e) for k in ck.known): ck.violation('  differs: ' + dshow(e)[:700], dict(event=e, call=dshow(e), rerun=inline(e)))
