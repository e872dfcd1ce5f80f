#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ specification (TLC): recorded calls of the real code validated as behaviours of the specification'
X = 'Every recorded call is judged by TLC against the exact value computed in the specification; which calls are recorded is a directed and screened sample of the argument space (all of it for 16 bits of each operand\'s structure at most), so a deviation confined to a few unvisited bit patterns can be missed. Trusted: TLC, the Java big-integer overrides (checked against the pure TLA+ definitions), the compilers.'
A = 'The specification computes a rigorous enclosure of the real function (176 bits) and TLC accepts a recorded result only inside the stated ULP budget; the enclosures are model-checked against functional identities and higher precision. Calls are sampled: boundary, table-edge, hard and random arguments plus the worst of a large screen against a long double estimate.'
N = {i: (TV, X) for i in ['C01','C02','C03','C04','C05','C06','C07','C08']}
N.update({i: (TV + '; rigorous enclosures in the specification', A) for i in ['C09','C10','C11','C12','C13','C14','C15']})
N['C17'] = (TV + '; recorded exception flags and errno', X)
N['C16'] = ('TLA+ specification (TLC): recorded sessions of the real library (program and library sharing one environment) validated as behaviours of the environment machine', 'Sessions are random walks over pools of calls; every function and variant has its turn, but a history that matters only for one rare argument can be missed. Trusted: TLC, the compilers, the recording driver.')
N['C24'] = ('TLA+ specification (TLC): the interpolation algorithm model-checked in toy formats with every contraction; recorded walks of the real lerp validated against the same promises', X)
N['C20'] = ('TLA+ specification (TLC): a vector machine defined lane by lane from the scalar operations; recorded random programs on the real vector types validated as its behaviours', 'Programs are random over all lane types, widths and nine builds of the vector backends (native vector extensions, portable, array, the one written for MSVC); a lane pattern or operation pair that never comes up can be missed. The ARM backend and the vector_size ABI of the older layer are not run. Transcendental lanes are compared with the scalar functions of the library and of libm.')
N['C21'] = ('TLA+ specification (TLC): a register machine of N-bit words, its operations model-checked against the integers at small widths; recorded random programs on the real wide integers validated as its behaviours', 'Programs are random, with operands that carries run through, over fourteen width and word-type combinations of either signedness and four builds; widths above 512 bits and big-endian or 32-bit targets are not run, and an operand pattern that never comes up can be missed.')
N['C22'] = ('TLA+ specification (TLC): a register machine of dyadic numbers with exact values, model-checked at small precisions against the definition of rounding and with the documented algorithms as refinements; recorded random programs on the real dyadic numbers and error-free transformations validated as its behaviours', 'Programs are random, aimed at ties, cancellation and the ends of the ranges, over mantissas of 64 to 256 bits, four rounding modes and five builds. The approximate reciprocal states no bound and is not judged; the splitting functions are not judged where the compiler contracts them away.')
N['C23'] = ('TLA+ specification (TLC): contracts over exact arithmetic, model-checked on small words and a toy floating-point format, where they determine the integer results and hold of the documented formulas; recorded calls of the real helpers judged by them', 'Rounding to nearest only. Floating-point arguments of the helpers that calculate are kept where no intermediate result overflows or underflows; NaN, reversed ranges and negative lengths are outside the contracts. Integer arguments are random, biased to the ends of eight types.')
N['C25'] = ('TLA+ specification (TLC): the conversion rules model-checked over all types; recorded calls of the overloads validated against the rule, the conversion and the floating-point call', X)
N['C18'] = (TV + '; the calls are compiled into constants by GCC and Clang', X)
N['C19'] = ('TLA+ specification (TLC): each recorded call made in eight deterministic builds and two constant evaluators must be one step of one machine', 'Every screened call is compared in all the builds by the recorder; those that differ and a sample are judged by TLC. Builds: GCC and Clang at -O0 to -O3, SSE2, SSE4.2, AVX2 with FMA. Calls are sampled.')
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = [dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}', technique=N[i][0], level='model_checking', level_note=N[i][1]) for i in ids if i in N]
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks,
    not_applicable=[dict(property=i, reason='the check for it is still being built') for i in ids if i not in N]), open(V + '/MANIFEST.json', 'w'), indent=1)
