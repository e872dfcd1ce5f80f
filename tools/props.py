# What each check runs.
from vlib import *
from ce import ce_check
import det

RT = ['gcc-rt', 'clang-rt']; DET = ['gcc-det', 'clang-det']; NOBRT = ['clang-nobrt', 'clang-nobrt-sse2', 'clang-nobrt-avx2']; SIMD = ['gcc-simd-sse2', 'gcc-simd-sse4', 'gcc-simd-avx2', 'clang-simd-avx2']
Q = dict(n=300000, keep=12, rnd=12, st=120, exh=1, stride=1009)
def sc(variants, fn, types, modes, **kw):
    o = dict(Q); o.update(kw)
    if THOROUGH: o.update(n=o['n'] * 30, keep=o['keep'] * 8, rnd=o['rnd'] * 25, st=o['st'] * 5, tmo=7200, stride=1 if modes == '0' else 31)       # every float on the constant-evaluation paths
    return [dict(v=v, fn=fn if isinstance(fn, list) else fn.split(), types=types, modes=modes, **o) for v in variants]

CLS = 'isnan isinf isfinite isnormal signbit fpclassify isgreater isgreaterequal isless islessequal islessgreater isunordered'
ERRFN = CLS + ' fabs copysign fmin fmax fdim ceil floor trunc round rint nearbyint fmod remainder remquo frexp ldexp scalbn scalbln ilogb logb modf nextafter nexttoward nextup nextdown fma sqrt pow exp exp2 expm1 log log2 log10 log1p sin cos tan asin acos atan atan2 cbrt hypot hypot3 tgamma lgamma'
WHAT = {'C17': 'flags'}
SCANS = {
    'C01': lambda: sc(RT + DET, CLS, 'fdl', '0123', st=250) + sc(['clang-ce', 'clang-nobce'], CLS, 'fdl', '0', st=250),
    'C02': lambda: sc(RT + DET + ['clang-nobrt'], 'fabs copysign fmin fmax fdim', 'fdl', '0123') + sc(['clang-ce', 'clang-nobce'], 'fabs copysign fmin fmax fdim', 'fdl', '0'),
    'C03': lambda: sc(RT + DET, 'ceil floor trunc round rint nearbyint', 'fdl', '0123') + sc(['clang-ce', 'clang-nobce'], 'ceil floor trunc round rint nearbyint', 'fdl', '0') + sc(['clang-nobrt', 'clang-nobrt-sse2'], 'ceil floor trunc round rint nearbyint', 'fdl', '0123', st=80),
    'C04': lambda: sc(RT + DET, 'fmod remainder remquo', 'fdl', '0123', st=200) + sc(['clang-ce', 'clang-nobce'], 'fmod remainder remquo', 'fdl', '0', st=200) + sc(['clang-nobrt'], 'fmod remainder remquo', 'fdl', '0123', st=100),
    'C05': lambda: sc(RT + DET, 'frexp ldexp scalbn scalbln ilogb logb modf', 'fdl', '0123', st=150) + sc(['clang-ce', 'clang-nobce'], 'frexp ldexp scalbn scalbln ilogb logb modf', 'fdl', '0', st=200) + sc(['clang-nobrt'], 'frexp ldexp scalbn scalbln ilogb logb modf', 'fdl', '0123', st=150),
    'C06': lambda: sc(RT + DET, 'nextafter nexttoward nextup nextdown', 'fdl', '03', st=200) + sc(['clang-ce', 'clang-nobce'], 'nextafter nexttoward nextup nextdown', 'fdl', '0', st=250) + sc(['clang-nobrt'], 'nextafter nexttoward nextup nextdown', 'fdl', '03', st=150),
    'C07': lambda: sc(RT + DET + NOBRT + ['gcc-simd-sse2', 'clang-simd-avx2'], 'fma', 'fdl', '0123', n=500000, st=300, keep=40, rnd=100) + sc(['clang-ce', 'clang-nobce'], 'fma', 'fdl', '0', n=500000, st=300, keep=40, rnd=100),
    'C08': lambda: sc(RT + DET + NOBRT + ['gcc-simd-sse2', 'clang-simd-avx2'], 'sqrt', 'fdl', '0123', n=500000, st=300, keep=40, rnd=150) + sc(['clang-ce', 'clang-nobce'], 'sqrt', 'fdl', '0', n=500000, st=300, keep=40, rnd=150),
    'C09': lambda: sc(RT, 'pow', 'fdl', '0123', n=500000, st=400, keep=60, rnd=100) + sc(DET, 'pow', 'fd', '0123', n=500000, st=300, keep=60, rnd=80) + sc(['clang-ce', 'clang-nobce'], 'pow', 'fdl', '0', n=500000, st=700, keep=80, rnd=150) + sc(NOBRT + SIMD + ['gcc-rt-fma', 'clang-rt-fma'], 'pow', 'fd', '0123', n=500000, st=250, keep=60, rnd=80),
    'C10': lambda: sc(RT + DET, 'exp exp2 expm1', 'fd', '0123', n=1000000, keep=40, rnd=40) + sc(['clang-ce', 'clang-nobce'], 'exp exp2 expm1', 'fd', '0', n=1000000, keep=60, rnd=60) + sc(RT + ['gcc-noerrno'], 'exp exp2 expm1', 'l', '0', n=200000, keep=20, rnd=20, st=60),
    'C11': lambda: sc(RT + DET, 'log log2 log10 log1p', 'fd', '0123', n=1000000, keep=40, rnd=40) + sc(['clang-ce', 'clang-nobce'], 'log log2 log10 log1p', 'fd', '0', n=1000000, keep=60, rnd=60) + sc(RT + ['gcc-noerrno'], 'log log2 log10 log1p', 'l', '0', n=200000, keep=20, rnd=20, st=60),
    'C12': lambda: sc(RT + DET, 'sin cos tan', 'fd', '0123', n=1000000, keep=40, rnd=40) + sc(['clang-ce', 'clang-nobce'], 'sin cos tan', 'fd', '0', n=1000000, keep=60, rnd=60) + sc(RT + ['gcc-noerrno'], 'sin cos tan', 'l', '0', n=200000, keep=20, rnd=20, st=60),
    'C13': lambda: sc(RT + DET, 'asin acos atan atan2', 'fd', '0123', n=1000000, keep=40, rnd=40, st=200) + sc(['clang-ce', 'clang-nobce'], 'asin acos atan atan2', 'fd', '0', n=1000000, keep=60, rnd=60, st=700) + sc(RT + ['gcc-noerrno'], 'asin acos atan atan2', 'l', '0', n=200000, keep=20, rnd=20, st=60),
    'C14': lambda: sc(RT + DET, 'cbrt hypot hypot3', 'fd', '0123', n=1000000, keep=40, rnd=40, st=200) + sc(['clang-ce', 'clang-nobce'], 'cbrt hypot hypot3', 'fd', '0', n=1000000, keep=60, rnd=60, st=700) + sc(RT + ['gcc-noerrno'], 'cbrt hypot hypot3', 'l', '0', n=200000, keep=20, rnd=20, st=60),
    'C15': lambda: sc(RT + DET, 'tgamma lgamma', 'fd', '0', n=1000000, keep=80, rnd=80) + sc(['clang-ce', 'clang-nobce'], 'tgamma lgamma', 'fd', '0', n=1000000, keep=60, rnd=60) + sc(RT + ['gcc-noerrno'], 'tgamma lgamma', 'l', '0', n=200000, keep=20, rnd=20, st=60),
    'C17': lambda: sc(RT, ERRFN, 'fdl', '0123', n=10000, exh=0, keep=10, rnd=3, st=100) + sc(['gcc-noerrno'], ERRFN, 'fdl', '0', n=10000, exh=0, keep=10, rnd=3, st=60)
                   + sc(DET + SIMD + ['gcc-noerrno-det'], ERRFN, 'fd', '02', n=10000, exh=0, keep=10, rnd=3, st=60),
}

OVV = ['gcc-rt', 'clang-rt', 'gcc-det', 'clang-nobrt', 'clang-ce']
def ovlibs(): a = artifacts({**lib_items(OVV, 'ov_lib.cpp', 'ov-'), **tool_item('ov.cpp', 'ov')}); return {**{v: a['ov-' + v] for v in OVV}, 'ov': a['ov']}
SIMDV = {   # vector backends: native vector extensions, the portable and array ones, the one written for MSVC
    'simd-gcc': ('g++', ['-std=c++17', '-DCCM_CONFIG_USE_RT_SIMD']), 'simd-clang': ('clang++', ['-std=c++20', '-DCCM_CONFIG_USE_RT_SIMD']),
    'simd-gcc-avx2': ('g++', ['-std=c++20', '-mavx2', '-mfma', '-DCCM_CONFIG_USE_RT_SIMD']), 'simd-clang-avx2': ('clang++', ['-std=c++17', '-mavx2', '-mfma', '-DCCM_CONFIG_USE_RT_SIMD']),
    'simd-gcc-portable': ('g++', ['-std=c++17', '-DCCM_PP_FORCE_PORTABLE', '-DCCM_CONFIG_USE_RT_SIMD']), 'simd-clang-array-sse4': ('clang++', ['-std=c++20', '-msse4.2', '-DCCM_PP_FORCE_ARRAY_BACKEND', '-DCCM_CONFIG_USE_RT_SIMD']),
    'simd-gcc-msvc': ('g++', ['-std=c++17', '-DCCM_PP_FORCE_MSVC_INTRIN']), 'simd-gcc-msvc-avx2': ('g++', ['-std=c++20', '-mavx2', '-mfma', '-DCCM_PP_FORCE_MSVC_INTRIN']), 'simd-clang-msvc-avx': ('clang++', ['-std=c++20', '-mavx', '-DCCM_PP_FORCE_MSVC_INTRIN']),
}
def simdlibs(): return artifacts({**{n: ([cc] + fl + COM + (GNU if cc == 'g++' else []) + INC + [V + '/drv/simd_lib.cpp'], '.so') for n, (cc, fl) in SIMDV.items()}, **tool_item('load.cpp', 'load')})
# recorders that are built with the library in several ways: name of the variant to compiler and flags
WIDEV = { 'wide-gcc': ('g++', ['-std=c++17']), 'wide-clang': ('clang++', ['-std=c++20']), 'wide-clang-ce': ('clang++', ['-std=c++17', '-DV_CE']), 'wide-clang-nob': ('clang++', ['-std=c++20', '-DV_NOB']) }
def recorders(variants, src, opt='-O2'): return artifacts({**{n: ([cc] + fl + COM + [opt] + (GNU if cc == 'g++' else []) + INC + [V + '/drv/' + src], '.so') for n, (cc, fl) in variants.items()}, **tool_item('load.cpp', 'load')})
DYV = { 'dyadic-gcc': ('g++', ['-std=c++17']), 'dyadic-gcc-fma': ('g++', ['-std=c++20', '-mavx2', '-mfma']), 'dyadic-clang': ('clang++', ['-std=c++20']), 'dyadic-clang-ce': ('clang++', ['-std=c++17', '-DV_CE']), 'dyadic-clang-nob': ('clang++', ['-std=c++17', '-DV_NOB']) }
def dyadiclibs(): return recorders(DYV, 'dyadic_lib.cpp')
EXV = { 'ext-gcc': ('g++', ['-std=c++17']), 'ext-gcc-fma': ('g++', ['-std=c++20', '-mavx2', '-mfma']), 'ext-clang': ('clang++', ['-std=c++20']), 'ext-clang-ce': ('clang++', ['-std=c++17', '-DV_CE']), 'ext-clang-nob': ('clang++', ['-std=c++17', '-DV_NOB']) }
def extlibs(): return recorders(EXV, 'ext_lib.cpp')
def widelibs(): return recorders(WIDEV, 'wide_lib.cpp', '-O1')
T = lambda quick, thorough: thorough if THOROUGH else quick
TRACES = {       # property: recorder, trace specification, plans
    'C16': lambda: ('session.cpp', 'EnvTrace', [dict(v=v, first=24 * k, sessions=24, len=120, pool=10, types='fdl' if v in RT + ['clang-ce', 'clang-nobce', 'clang-nobrt'] else 'fd') for k in range(T(1, 40)) for v in VARIANTS]),
    'C25': lambda: ('ov.cpp', 'OvTrace', [dict(v=v, n=T(10, 200), modes='0' if v == 'clang-ce' else '0123', seed=SEED + k) for k in range(T(1, 20)) for v in OVV], None, ovlibs()),
    'C20': lambda: ('load.cpp', 'SimdTrace', [dict(v=v, first=25 * k, sessions=25, len=60) for k in range(T(1, 30)) for v in SIMDV], None, simdlibs()),
    'C21': lambda: ('load.cpp', 'WideTrace', [dict(v=v, first=40 * k, sessions=40, len=100) for k in range(T(1, 30)) for v in WIDEV], None, widelibs()),
    'C22': lambda: ('load.cpp', 'DyadicTrace', [dict(v=v, first=100 * k, sessions=100, len=120) for k in range(T(1, 30)) for v in DYV], None, dyadiclibs()),
    'C23': lambda: ('load.cpp', 'ExtTrace', [dict(v=v, first=100 * k, sessions=100, len=80) for k in range(T(1, 40)) for v in EXV], None, extlibs()),
    'C24': lambda: ('lerp.cpp', 'LerpTrace', [dict(v=v, first=25 * k, walks=25, len=60) for k in range(T(1, 20)) for v in RT + DET + ['gcc-rt-fma', 'clang-rt-fma', 'clang-ce', 'clang-nobrt']]),
}

# ---- the specification against its own declarative laws
TF = dict(P=3, W=3, IB=0)
def toy(*ops):
    def run(ck):
        ck.laws('MCFpOps', dict(Ops=list(ops), **TF))
        if THOROUGH:
            ck.laws('MCFpOps', dict(Ops=list(ops), P=3, W=3, IB=1)); ck.laws('MCFpOps', dict(Ops=list(ops), P=4, W=3, IB=0)); ck.laws('MCFpOps', dict(Ops=list(ops), P=2, W=4, IB=0))
    return run
def arith(*ops):
    def run(ck):
        ck.laws('MC754', dict(Ops=list(ops), P=2 if 'fma' in ops else 3, W=3, IB=0))
        if THOROUGH:
            ck.laws('MC754', dict(Ops=list(ops), P=3, W=3, IB=1 if ops == ('sqrt',) else 0))
            if 'fma' not in ops: ck.laws('MC754', dict(Ops=list(ops), P=4, W=3, IB=0))
    return run
def ident(*laws):
    def run(ck):
        E = [80, 140, 170, 190, 197, 198, 199, 200, 201, 202, 203, 205, 206, 209, 214]; S = [1, 2, 3, 4]
        if THOROUGH: E = sorted(set(E) | {60, 75, 110, 130, 155, 180, 185, 193, 195, 196, 204, 207, 208, 211, 212, 216}); S = list(range(1, 33))
        ck.laws('MCTranscend', dict(Laws=list(laws) + ['const'], Exps=E, Sigs=S, Base0=176, GamP=256, GamTo=64))
    return run
MODELS = {
    'C01': toy('pred', 'cmp'), 'C02': toy('minmax', 'fdim'), 'C03': toy('near'), 'C04': toy('fmod', 'remainder'),
    'C05': toy('frexp', 'scale', 'logb', 'modf'), 'C06': toy('next', 'nextafter'), 'C07': arith('fma'), 'C08': arith('sqrt'),
    'C09': ident('pow'), 'C10': ident('exp', 'exp2', 'expm1'), 'C11': ident('log', 'log2', 'log10', 'log1p'), 'C12': ident('sincos'),
    'C16': lambda ck: ck.laws('MCEnv', dict(Steps=4 if THOROUGH else 3)),
    'C25': lambda ck: ck.laws('MCOverload', {}),
    'C20': lambda ck: [ck.laws('MCSimd', dict(W=3, P=2, EW=2, Few=True, Kinds=['s', 'u', 'f']))] + ([ck.laws('MCSimd', dict(W=3, P=3, EW=2, Few=True, Kinds=['f'])), ck.laws('MCSimd', dict(W=4, P=2, EW=2, Few=True, Kinds=['s', 'u']))] if THOROUGH else []),
    'C21': lambda ck: ck.laws('MCWide', dict(Widths=T([3, 4, 5], [3, 4, 5, 6]))),
    'C22': lambda ck: [ck.laws('MCDyadic', dict(B=3, E=T(4, 7), Kind='dyadic')), ck.laws('MCDyadic', dict(B=4, E=T(2, 5), Kind='words'))] + ([ck.laws('MCDyadic', dict(B=4, E=5, Kind='dyadic')), ck.laws('MCDyadic', dict(B=5, E=4, Kind='words'))] if THOROUGH else []),
    'C23': lambda ck: [ck.laws('MCExt', dict(Kind='int', P=T(4, 5), E=1)), ck.laws('MCExt', dict(Kind='float', P=3, E=T(1, 2)))],
    'C24': lambda ck: [ck.laws('MCLerp', dict(P=p, W=w)) for p, w in T([(2, 3)], [(2, 3), (3, 3), (2, 4)])],
    'C17': lambda ck: ck.laws('MCErr', dict(Base0=176, GamP=256, GamTo=64)), 'C13': ident('atan', 'asin', 'atan2'), 'C14': ident('cbrt', 'hypot'), 'C15': ident('gamma'),
}

OTHER = {
    'C18': lambda ck: ce_check(ck, ERRFN.split()),
    'C19': lambda ck: det.det_check(ck, ERRFN.split() + ['lerp']),
}

def main(args):
    if not args: raise SystemExit('usage: check.py PROPERTY | setup')
    if args[0] == 'setup':
        build_java(); artifacts({**lib_items(list(VARIANTS)), **det.items(), **tool_item('session.cpp', 'session'), **tool_item('lerp.cpp', 'lerp')}); ovlibs(); simdlibs(); widelibs(); dyadiclibs(); extlibs(); return
    ck = Check(args[0])
    if args[0] in MODELS: MODELS[args[0]](ck)
    if args[0] in SCANS: scan_and_judge(ck, SCANS[args[0]](), WHAT.get(args[0], 'value'))
    if args[0] in OTHER: OTHER[args[0]](ck)
    if args[0] in TRACES: trace_and_judge(ck, *TRACES[args[0]]())
    ck.finish()
