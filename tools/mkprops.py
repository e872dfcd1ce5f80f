#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements stay readable in one place).
import json, os
P=[]
I='include/ccmath/'
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=n,where=I+w) for n,w in mech],
                   observe_at=observe,state=[dict(name=a,meaning=b,where=I+c) for a,b,c in state],hook_needed=None)))
ALLF="float, double and x87 long double"
p('C01','Classification and ordering predicates are exact on every bit pattern',
 "isnan, isinf, isfinite, isnormal, signbit and fpclassify, and isgreater, isgreaterequal, isless, islessequal, islessgreater and isunordered, answer exactly what the IEEE-754 encoding of their arguments says, for every canonical bit pattern of "+ALLF+", at run time and in constant evaluation. The classification functions raise no floating-point exception, and the comparisons raise none on quiet NaNs.",
 ['inputs','configurations'],'all canonical encodings (NaN payloads, subnormals, both zeros) of three formats, pairs of them, four rounding modes, builtin and generic paths',
 'the unit tests try a few dozen values; the classification is a function of up to 2^80 encodings and of pairs of them',
 ['math/compare/fpclassify.hpp','math/compare/isnan.hpp','math/compare/isnormal.hpp','math/compare/signbit.hpp','math/compare/isless.hpp','internal/math/generic/func/compare','internal/support/fp/fp_bits.hpp'],
 [('bit-pattern tests','internal/support/fp/fp_bits.hpp'),('builtin dispatch','internal/math/generic/builtins/compare')],['return values of the public predicates','fetestexcept after the call'])
p('C02','fabs, copysign, fmin, fmax and fdim follow IEEE-754 semantics',
 "fabs and copysign change nothing but the sign (a NaN stays a NaN with the sign asked for; its payload is not judged); fmin and fmax return one of their arguments, the smaller or larger in value, and the other one when exactly one is a NaN; fdim is the correctly rounded positive difference or +0. This holds for all arguments of "+ALLF+" in every rounding mode, at run time and in constant evaluation.",
 ['inputs','configurations'],'all pairs of encodings in three formats, four rounding modes, builtin and generic paths',
 'tests use a handful of pairs; NaN/zero/sign combinations and directed rounding of fdim are pairs of encodings they do not enumerate',
 ['math/basic/fabs.hpp','math/fmanip/copysign.hpp','math/basic/min.hpp','math/basic/max.hpp','math/basic/fdim.hpp'],
 [('fdim dispatch','math/basic/fdim.hpp'),('sign-bit manipulation','internal/support/fp/fp_bits.hpp')],['return values'])
p('C03','Nearest-integer functions are exact',
 "For every argument, ceil, floor, trunc and round return the integer their name says whatever rounding mode is in force, and rint and nearbyint return the neighbouring integer chosen by the current rounding mode, in "+ALLF+". The sign of the argument is kept on zero results; infinities and NaNs pass through; nearbyint never raises FE_INEXACT; constant evaluation agrees with round-to-nearest run time.",
 ['inputs','configurations'],'all encodings of three formats x four rounding modes x builtin/generic/constant-evaluation paths',
 'boundary cases (largest fraction below one half, halves near 2^(p-1), integers above 2^63) are single encodings among 2^32..2^80',
 ['math/nearest/ceil.hpp','math/nearest/floor.hpp','math/nearest/round.hpp','math/nearest/trunc.hpp','math/nearest/rint.hpp','math/nearest/nearbyint.hpp','internal/support/fp/directional_rounding_utils.hpp'],
 [('directional rounding helpers','internal/support/fp/directional_rounding_utils.hpp'),('generic kernels','internal/math/generic/func/nearest')],['return values','fetestexcept'])
p('C04','fmod, remainder and remquo are exact',
 "fmod returns the exact x - n*y with n the quotient rounded toward zero, remainder the exact x - n*y with n the quotient rounded to nearest even, for every finite x and non-zero y of "+ALLF+", however large the quotient is; remquo returns the same remainder and a quotient with n's sign and at least n's three low bits. Zero results keep the sign of x, and special operands give the values of ISO C Annex F.",
 ['inputs','configurations'],'all operand pairs (quotients up to 2^2098 for double), run time and constant evaluation, four rounding modes',
 'tests use small quotients; exactness is a statement about all pairs and depends on the whole division loop',
 ['math/basic/fmod.hpp','math/basic/remainder.hpp','math/basic/remquo.hpp','math/basic/impl/remquo_double_impl.hpp','math/basic/impl/remquo_float_impl.hpp'],
 [('special-case filter and kernels','math/basic/fmod.hpp'),('remquo reduction','math/basic/impl/remquo_double_impl.hpp')],['return values','*quo'])
p('C05','Decomposition and scaling are exact and rounded once',
 "frexp, ilogb, logb and modf return the exact parts of every argument, subnormals included, and the parts recombine to the argument; ldexp and scalbn return x*2^n rounded once in the current rounding mode for every int n, with correct overflow and gradual underflow. Zeros, infinities and NaNs give the values of ISO C Annex F.",
 ['inputs','configurations'],'all encodings of three formats, all 32-bit exponents, four rounding modes, run time and constant evaluation',
 'double rounding in the subnormal range and extreme exponents need particular (x, n) pairs',
 ['math/fmanip/frexp.hpp','math/fmanip/ilogb.hpp','math/fmanip/logb.hpp','math/fmanip/modf.hpp','math/fmanip/ldexp.hpp','math/fmanip/scalbn.hpp','internal/types/normalized_float.hpp','internal/types/dyadic_float.hpp'],
 [('normalised float','internal/types/normalized_float.hpp'),('dyadic float conversion','internal/types/dyadic_float.hpp')],['return values','out parameters'])
p('C06','nextafter, nexttoward, nextup and nextdown step by one encoding',
 "nextafter and nexttoward return the representable value adjacent to x in the direction of y, or y when the arguments compare equal, for all arguments of "+ALLF+": across binade boundaries, through the subnormals and zero with the right sign, into infinity and down from it. nextup and nextdown, where provided, are the steps toward plus and minus infinity, and stepping away and back returns to the start.",
 ['inputs','configurations'],'all pairs of encodings of three formats, run time and constant evaluation',
 'binade and subnormal boundaries (and the explicit integer bit of the 80-bit format) are isolated encodings',
 ['math/fmanip/nextafter.hpp','math/fmanip/nexttoward.hpp','internal/math/generic/func/fmanip/nextafter_gen.hpp','internal/math/generic/func/fmanip/nexttoward_gen.hpp'],
 [('storage increment','internal/math/generic/func/fmanip/nextafter_gen.hpp')],['return values'])
p('C07','fma is correctly rounded in every mode on every path',
 "fma(x,y,z) is x*y+z rounded exactly once in the current rounding mode, for all arguments of "+ALLF+", on the builtin path, the software path and in constant evaluation (which uses the configured constant rounding mode). Exact zero sums have the sign IEEE-754 prescribes, overflow and gradual underflow are handled as for any correctly rounded operation, and invalid combinations give NaN.",
 ['inputs','configurations'],'all triples of encodings, four rounding modes, hardware/software/constant-evaluation paths',
 'double rounding and sticky-bit mistakes need triples with particular exponent distances; tests sample a few',
 ['math/basic/fma.hpp','internal/support/fp/fma.hpp','internal/math/generic/func/basic/fma_gen.hpp'],
 [('software fma','internal/support/fp/fma.hpp'),('runtime probe and dispatch','internal/math/runtime/func/basic')],['return values','fetestexcept'])
p('C08','sqrt is correctly rounded in every mode on every path',
 "sqrt(x) is the exact square root rounded once in the current rounding mode for every x >= 0 of "+ALLF+", subnormals included, at run time, through the generic kernel and in constant evaluation. sqrt(-0) is -0, negative arguments give NaN, and where the compiler or the processor computes it FE_INEXACT is raised exactly when the result is not exact.",
 ['inputs','configurations'],'all encodings x four rounding modes x builtin/generic/SIMD/constant-evaluation paths',
 'a correctly rounded result differs from a nearly correct one on isolated inputs only',
 ['math/power/sqrt.hpp','internal/math/generic/func/power/sqrt_gen.hpp','internal/math/runtime/func/power/sqrt_rt.hpp'],
 [('digit recurrence and rounding','internal/math/generic/func/power/sqrt_gen.hpp')],['return values','fetestexcept'])
p('C09','pow is accurate to one ULP and has the ISO C special values',
 "pow(x,y) of float and double is within 1 ULP of the exact power when rounding to nearest and, in directed modes, 17/16 ULP for double and 1.5 ULP for float (within 4 ULP for long double outside deterministic mode), on the libm-independent kernels as well as on the default path, with overflow and underflow delivered as the rounding mode prescribes. All special operands (zeros, ones, infinities, NaNs, negative bases with integer and non-integer exponents, odd and even) give the values of ISO C Annex F.",
 ['inputs','configurations'],'all pairs of encodings, four rounding modes, builtin/kernel/SIMD/constant-evaluation paths',
 'tables of up to 2^7 entries and several internal phases are selected by the operands; tests reach a few of them',
 ['math/power/pow.hpp','internal/math/generic/func/power/pow_gen.hpp','internal/math/generic/func/power/pow_impl/pow_impl.hpp','internal/math/generic/func/power/pow_impl/powf_impl.hpp','internal/math/generic/func/power/powl_gen.hpp'],
 [('double kernel','internal/math/generic/func/power/pow_impl/pow_impl.hpp'),('float kernel','internal/math/generic/func/power/pow_impl/powf_impl.hpp'),('80-bit kernel','internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp')],['return values'])
p('C10','exp, exp2 and expm1 are accurate over their whole domain',
 "For every finite argument, exp and exp2 of float and double are within 2 ULP and expm1 within 4 ULP of the exact value when rounding to nearest (twice that in directed modes), on the default path and through the generic kernels used in constant evaluation and deterministic builds. Overflow, gradual underflow, zeros, infinities and NaNs give the ISO C values.",
 ['inputs','configurations'],'all encodings of float and double, four rounding modes, builtin/kernel/constant-evaluation paths (long double on the default path)',
 'table entries, reduction boundaries, and the overflow/subnormal tails are each reached by narrow argument ranges',
 ['math/expo/exp.hpp','math/expo/exp2.hpp','math/expo/expm1.hpp','math/expo/impl/exp_double_impl.hpp','math/expo/impl/exp_float_impl.hpp','math/expo/impl/exp2_double_impl.hpp','math/expo/impl/exp2_float_impl.hpp','math/expo/impl/expm1_impl.hpp'],
 [('table-driven kernels','math/expo/impl/exp_double_impl.hpp'),('tables','math/expo/impl/exp_data.hpp')],['return values'])
p('C11','log, log2, log10 and log1p are accurate over their whole domain',
 "For every positive finite argument (above -1 for log1p), log and log2 of float and double are within 2 ULP and log10 and log1p within 4 ULP of the exact value when rounding to nearest (twice that in directed modes), on the default path and through the generic kernels; log(1) is +0 and exact powers of two give exact log2. Poles, negative arguments, infinities and NaNs give the ISO C values.",
 ['inputs','configurations'],'all encodings of float and double, four rounding modes, builtin/kernel/constant-evaluation paths (long double on the default path)',
 'cancellation next to 1 and each table interval need their own arguments',
 ['math/expo/log.hpp','math/expo/log2.hpp','math/expo/log10.hpp','math/expo/log1p.hpp','math/expo/impl/log_double_impl.hpp','math/expo/impl/log_float_impl.hpp','math/expo/impl/log2_double_impl.hpp','math/expo/impl/log2_float_impl.hpp','math/expo/impl/log1p_impl.hpp','math/expo/impl/log10_impl.hpp'],
 [('table-driven kernels','math/expo/impl/log_double_impl.hpp'),('tables','math/expo/impl/log_data.hpp')],['return values'])
p('C12','sin, cos and tan are accurate for arguments of any size',
 "For every finite argument, however large, sin and cos of float and double are within 5 ULP of the exact value when rounding to nearest and tan within 8 ULP (twice that in directed modes), on the default path and through the generic kernels: argument reduction loses nothing next to multiples of pi/2. sin and tan are odd and keep -0, cos is even, and infinities give NaN.",
 ['inputs','configurations'],'all encodings of float and double, four rounding modes, builtin/kernel/constant-evaluation paths (long double on the default path)',
 'each exponent uses other digits of 2/pi, and worst cases of the reduction are isolated arguments',
 ['math/trig/sin.hpp','math/trig/cos.hpp','math/trig/tan.hpp','math/trig/impl/sincos_double_impl.hpp','math/trig/impl/sincos_float_impl.hpp','math/trig/impl/sincos_payne_hanek.hpp'],
 [('Payne-Hanek reduction','math/trig/impl/sincos_payne_hanek.hpp'),('polynomials','math/trig/impl/sincos_double_impl.hpp')],['return values'])
p('C13','asin, acos, atan and atan2 are accurate and on the right branch',
 "asin, acos and atan of float and double are within 4 ULP, and atan2 within 6 ULP, of the exact value when rounding to nearest (twice that in directed modes) for every argument in the domain, on the default path and through the generic kernels. atan2 chooses the quadrant from both signs including those of zeros, all ISO C special values hold, and arguments outside [-1,1] give NaN for asin and acos.",
 ['inputs','configurations'],'all encodings (pairs for atan2) of float and double, four rounding modes, builtin/kernel/constant-evaluation paths (long double on the default path)',
 'branch cuts, interval boundaries and extreme ratios are pairs that sampling rarely meets',
 ['math/trig/asin.hpp','math/trig/acos.hpp','math/trig/atan.hpp','math/trig/atan2.hpp','math/trig/impl/inv_trig_impl.hpp'],
 [('interval reduction','math/trig/impl/inv_trig_impl.hpp')],['return values'])
p('C14','cbrt and hypot are accurate and free of spurious overflow',
 "when rounding to nearest cbrt is within 5 ULP of the exact cube root for every argument (subnormals included, odd, exact signs on zeros) and hypot within 4 ULP of the exact length for every pair (6 ULP for the three-argument form), within 8 ULP in directed modes (12 for the three-argument form), for float and double on all paths. hypot neither overflows nor underflows when the exact result does not, is symmetric in its arguments and their signs, and is +inf when either argument is infinite even if the other is NaN.",
 ['inputs','configurations'],'all encodings (pairs for hypot) of float and double, four rounding modes, builtin/kernel/constant-evaluation paths (long double on the default path)',
 'scaling branches depend on the exponents of both operands',
 ['math/power/cbrt.hpp','math/power/hypot.hpp','internal/math/generic/func/power/cbrt_gen.hpp','internal/math/generic/func/power/hypot_gen.hpp'],
 [('scaling','internal/math/generic/func/power/hypot_gen.hpp')],['return values'])
p('C15','gamma and lgamma are accurate on the whole line',
 "gamma and lgamma of float and double return the exact function's value to within 32 ULP (lgamma: 32 ULP or the same absolute error scaled to 1 where it crosses zero) for every finite argument that is not a pole, in round to nearest, on the default path and through the generic kernels. Poles, infinities, NaNs and overflow give the ISO C values with the right sign.",
 ['inputs','configurations'],'all encodings of float and double, builtin/kernel/constant-evaluation paths',
 'sign alternation between poles, reflection and the overflow edge each need their own arguments',
 ['math/misc/gamma.hpp','math/misc/lgamma.hpp','math/misc/impl/gamma_double_impl.hpp','math/misc/impl/lgamma_double_impl.hpp'],
 [('reflection and Lanczos/Stirling kernels','math/misc/impl/gamma_double_impl.hpp')],['return values'])
p('C16','Calls preserve the floating-point environment and have no memory',
 "No call of a public function changes the rounding mode, clears an exception flag that was set before, or touches errno except to set EDOM or ERANGE; and the result of a call is a function of its arguments and the rounding mode in force alone, whatever calls, flags and mode changes came before it. Functions that only classify, compare, select or copy signs leave flags and errno as they were.",
 ['histories','inputs','configurations'],'every sequence of calls and mode/flag/errno changes, every function, builtin and generic paths',
 'tests call functions from a fresh environment; the statement is about histories of calls',
 ['internal/support/fenv/fenv_support.hpp','internal/support/fenv/rounding_mode.hpp','internal/support/fp/fma.hpp','internal/math/runtime/func/rt_dispatch.hpp'],
 [('errno/except helpers','internal/support/fenv/fenv_support.hpp')],['fegetround, fetestexcept and errno around every call','return values'],
 [('rounding mode','dynamic rounding direction','internal/support/fenv/rounding_mode.hpp'),('exception flags','sticky flags','internal/support/fenv/fenv_support.hpp'),('errno','error number','internal/support/fenv/fenv_support.hpp')])
p('C17','Domain, pole and range errors are reported as configured',
 "At run time a domain error (log of a negative, pow of a negative base to a non-integer, and so on) returns NaN and raises FE_INVALID and a pole error returns the signed infinity and raises FE_DIVBYZERO, with errno EDOM or ERANGE where the function sets errno, a result of ldexp, scalbn, scalbln, fdim, tgamma, lgamma or float exp2 that overflows to infinity sets ERANGE, and no error is reported for arguments that have none. When errno reporting is disabled by configuration errno is never touched.",
 ['inputs','configurations'],'every argument class of every function with a domain or pole error, four rounding modes, errno enabled and disabled',
 'tests look at errno and flags for pow and a few others on selected arguments',
 ['internal/support/fenv/fenv_support.hpp','math/expo/log.hpp','math/expo/log2.hpp','math/expo/log10.hpp','math/expo/log1p.hpp','math/power/pow.hpp','math/power/sqrt.hpp','internal/math/generic/func/power/pow_impl'],
 [('set_errno_if_required / raise_except_if_required','internal/support/fenv/fenv_support.hpp')],['errno','fetestexcept','return values'])
p('C18','Constant evaluation agrees with run-time evaluation',
 "A call evaluated at compile time yields the same value as the same call evaluated at run time in round to nearest: bit for bit for the exactly specified functions, and within the function's ULP budget otherwise (float and double; the elementary functions of long double are constant-evaluated in double). With GCC and with Clang, in default and in deterministic mode, a call is usable in a constant expression for every argument, special values included, for which the function raises no floating-point exception other than inexact (the latitude ISO C++ gives).",
 ['inputs','configurations'],'all arguments; both compilers; builtin and generic constant-evaluation paths',
 'static_assert tests fix a few literal arguments; the compile-time path is separate code',
 ['math/basic','math/expo','math/fmanip','math/nearest','math/power','math/trig','internal/support/is_constant_evaluated.hpp','internal/math/generic'],
 [('is_constant_evaluated dispatch','internal/support/is_constant_evaluated.hpp')],['constants the compilers compute','return values at run time'])
p('C19','Deterministic builds give identical bits on every compiler and SIMD level',
 "With deterministic mode on, every function returns the same bit pattern for the same arguments whichever compiler (GCC or Clang), optimisation level and SIMD instruction set the program is built with, and constant evaluation of the same call gives that bit pattern too.",
 ['inputs','configurations'],'all arguments of all functions; compilers x optimisation x instruction sets x run time/compile time',
 'one build cannot observe the other; tests run in one configuration at a time',
 ['internal/math/generic/builtins/builtin_helpers.hpp','internal/config','math/power/pow.hpp','internal/math/runtime/pp/simd_config.hpp'],
 [('builtin dispatch is switched off','internal/math/generic/builtins/builtin_helpers.hpp')],['return values of separately built libraries'])
p('C20','SIMD lanes compute what the scalar functions compute',
 "Every lane of a SIMD operation (loads and stores, arithmetic, comparisons, masks, selects, sqrt, pow and mapped functions) holds the result of the scalar operation on that lane's inputs, for every width and instruction set available, and no lane influences another. The run-time functions that go through SIMD return what the scalar path returns.",
 ['inputs','configurations'],'all lane contents x scalar/SSE2/SSE4/AVX2/vector-size ABIs x float/double',
 'tests check one ABI per build with benign lanes',
 ['internal/math/runtime/simd','internal/math/runtime/pp','internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp','internal/math/generic/func/power/pow_impl/powf_simd_impl.hpp'],
 [('instruction wrappers','internal/math/runtime/simd/instructions'),('simd pow','internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp')],['lanes after each operation'])
p('C21','Wide integers implement arithmetic modulo 2^N',
 "The fixed-width big integers behave as the integers modulo 2^N (two's complement when signed) under every sequence of additions, subtractions, multiplications, divisions, shifts, bit operations, comparisons, bit counts, range operations and conversions, for every width and word type. Division truncates towards zero and returns quotient and remainder with the identity q*d+r=n, full products are exact, and nothing outside the object changes; only a subtraction in place that overflows is reported.",
 ['histories','inputs'],'all operand values and all operation sequences, several widths and signedness',
 'carry and borrow chains across words need particular operands; tests use small numbers',
 ['internal/types/big_int.hpp','internal/types/number_pair.hpp','internal/support/math_support.hpp'],
 [('multiword arithmetic','internal/types/big_int.hpp')],['values of the objects after each operation'],
 [('words','little-endian machine words of the value','internal/types/big_int.hpp')])
p('C22','Dyadic and normalised floats convert and round exactly once',
 "A dyadic float built from a floating-point number has exactly its value, negation, scaling and shifts act on the fields exactly, quick sums, differences, products and powers stay within the documented distance of the exact result for every pair of operands, rounded products and quotients are correctly rounded in the current mode, and converting back to a floating-point type or to an integer rounds once, correctly, in the current mode, including the subnormal range and overflow, reporting what the conversion documents. The error-free transformations (two-sum, splitting, double-double) return pairs that represent the exact result, and normalised floats convert and compare exactly.",
 ['inputs','histories'],'all values of three formats, all mantissas and exponents, operation sequences',
 'round/sticky positions in the conversion depend on the exponent; tests sample a few',
 ['internal/types/dyadic_float.hpp','internal/types/normalized_float.hpp','internal/types/double_double.hpp','internal/support/math_support.hpp','internal/support/bits.hpp','internal/support/multiply_add.hpp'],
 [('conversion with guard and sticky bits','internal/types/dyadic_float.hpp')],['values after each operation'])
p('C23','The extension helpers meet their stated contracts',
 "The helpers in the ext library return what their documentation says for every argument in their domain: integer helpers (ceil_div, align, is_power_of_two, abs_diff, sign, step, clamp) are exact for every integer type with no overflow when the result is representable; clamping, normalising and stepping functions return values inside their range and exact at its ends; wrapping functions (repeat, ping_pong, delta_angle) return a value in the documented interval congruent to the argument; moving functions never overshoot and angles take the shortest way; and interpolating, remapping and converting functions are within a few roundings of their formula and exact at their ends.",
 ['inputs'],'all integer and floating-point arguments in the documented domains',
 'tests use a few round numbers; interval membership fails first at rounding boundaries',
 ['ext/abs_diff.hpp','ext/align.hpp','ext/ceil_div.hpp','ext/clamp.hpp','ext/is_power_of_two.hpp','ext/repeat.hpp','ext/ping_pong.hpp','ext/normalize.hpp','ext/delta_angle.hpp','ext/smoothstep.hpp','ext/remap.hpp'],
 [('closed formulas','ext/repeat.hpp')],['return values'])
p('C24','lerp is exact at its ends, monotone, bounded and consistent',
 "lerp(a,b,t) returns a at t=0 and b at t=1 exactly, returns a when a equals b, is monotone in t, stays between a and b for t in [0,1], and is within 8 units in the last place (of the largest of |a|, |b|, |ta|, |tb|) of the exact a+t(b-a) when those do not overflow, for all finite a, b and t of "+ALLF+" and in every rounding mode, at run time and in constant evaluation. It is never NaN for finite arguments.",
 ['inputs','configurations'],'all triples and ordered pairs of t, four rounding modes',
 'monotonicity quantifies over pairs of interpolation points; tests check a grid',
 ['math/misc/lerp.hpp','internal/math/generic/func/misc/lerp_gen.hpp'],[('case split of the interpolation','math/misc/lerp.hpp')],['return values'])
p('C25','Integer and mixed-type overloads equal the promoted floating-point call',
 "Where an overload for integer or mixed arithmetic arguments exists, it returns exactly the value and type that converting the arguments in the rounding mode in force and calling the floating-point overload gives: integers (and mixtures with them) count as double unless a long double takes part, as ISO C++ [c.math] prescribes, except that min, max, fmin, fmax (of two different types), fma and lerp work in std::common_type and min, max and fmin of integers are exact. The f- and l-suffixed names are the float and long double overloads. This holds for every integer type and value, including values not representable in double.",
 ['inputs','configurations'],'all integer types and values, all functions with such overloads',
 'tests pass a few int literals; promotion is per overload and per type',
 ['math/basic','math/expo','math/fmanip','math/nearest','math/power','math/trig','math/compare'],[('overload set','math/power/pow.hpp')],['return values and types'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
