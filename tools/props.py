#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of both)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/ajdmom/'
P = []


def p(id, title, statement, over, text, why, files, mech, note, obs=None, level='other', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[S + f for f in files], mech=mech, note=note, obs=obs, level=level, na=na))


ALLP = 'every admissible parameter vector (real drift and correlation, positive rates, volatilities and interval)'
WHYV = ('The tests compare a few orders at one parameter vector with stored or Monte-Carlo numbers; an error that '
        'vanishes there, or sits in a higher order or a mixed term, passes. The claim is for all parameter values.')

# ---------------------------------------------------------------- polynomial layer
p('A01', 'Sparse polynomials obey the ring laws',
  'For polynomials over the same named variables, the sum, difference, product, positive power and scalar '
  'multiple denote exactly the sum, difference, product, power and multiple of the denoted functions, term by term, '
  'whatever the exponents and coefficients. Adding a single constant or monomial, merging two polynomials and '
  'splitting off parts of the keys do the same.',
  ['inputs'], 'all integer exponents and coefficients of operands with up to 3 terms and 3 variables; powers up to 4',
  'Tests use one or two literal polynomials; cancellation, coinciding keys and zero results appear only for particular '
  'exponent/coefficient coincidences.', ['poly.py'],
  [dict(name='Poly arithmetic', where='src/ajdmom/poly.py:Poly')],
  'solver verdict per path over symbolic exponents and coefficients')
p('A02', 'Arithmetic never changes its operands and rejects mismatched variables',
  'Every arithmetic operation on polynomials leaves both operands exactly as they were and returns an object that '
  'does not alias them. Combining polynomials over different variable lists is refused with an error instead of '
  'producing a result, and no result of addition, subtraction or multiplication keeps a term whose coefficient is '
  'zero through cancellation.',
  ['inputs', 'histories'], 'all integer exponents and coefficients of operands with up to 3 terms',
  'Aliasing and stale zero terms only show after particular cancellations or later mutation; tests compare results '
  'once.', ['poly.py'], [dict(name='Poly.__add__/__sub__/__mul__/__pow__', where='src/ajdmom/poly.py')],
  'solver verdict per path over symbolic exponents and coefficients')
p('A03', 'Exported moment formulas decode back to the same polynomial',
  'Writing a polynomial to a file yields a title naming every key component plus numerator and '
  'denominator, and one row per term whose fields under that title are exactly the exponents and the exact rational '
  'coefficient of that term. Reading the rows back therefore reproduces the polynomial, including for empty '
  'polynomials and keys with tuple components; a formula mixing different numbers of summed jumps is refused, and '
  'splitting it by that number yields parts which together contain every term exactly once.',
  ['inputs'], 'all integer exponents and rational coefficients; up to 3 terms, keys of up to 4 components incl. tuples',
  'Only visual use of the export exists in the tests; no test reads a file back.', ['poly.py', 'mdl_svvj/cond2_cmom.py'],
  [dict(name='write_to_txt, write_to_csv, poly2csv', where='src/ajdmom/poly.py, src/ajdmom/mdl_svvj/cond2_cmom.py')],
  'symbolic fields are carried through the written text and compared by the solver')
p('A04', 'Combinatorial helpers enumerate exactly their mathematical definition',
  'The binomial/multinomial weights, the double factorial, the index enumerations of compositions and the central '
  'moments of the normal distribution equal their mathematical definitions: every composition of the given order is '
  'produced exactly once with the right multinomial weight. Weighted with any numbers, the enumerated terms sum to '
  'the power of the sum.',
  ['inputs'], 'symbolic weights; order 0..6 with 1..4 parts (thorough 9 with 1..4, 6 with 5); double factorial and normal moments up to order 24 (thorough 60)',
  'Tests sample a handful of small values; completeness of an enumeration is a statement about every order.',
  ['utils.py'], [dict(name='comb, fb, multilevel_index, multilevel_comb, cmnorm, dbfactorial',
                      where='src/ajdmom/utils.py')],
  'multinomial identity decided for symbolic weights; orders enumerated')
p('A05', 'Jump functionals f_Z equal their nested-sum definition for any jumps',
  'The functional evaluated for a list of recorded jumps equals the nested sum over the jumps it is documented as: '
  'products of e^{k s}, s^p and J^q at ordered jump times, including the innermost one over all jumps. This holds '
  'for all jump times, jump sizes and exponents.',
  ['inputs'], 'symbolic exponents, jump times and jump sizes; up to 3 jumps and nesting depth up to 3, depth 4 with 2 jumps (thorough: 4 jumps at depth 4, 5 at depth 2)',
  'No test evaluates it against an independent sum, and conditioning on jumps is exercised for one or two jumps only.',
  ['utils.py'], [dict(name='fZ', where='src/ajdmom/utils.py')],
  'exponential-polynomial identity with symbolic exponents decided by z3')
p('A06', 'Moments of normal variables and compound Poisson sums are exact',
  'The raw moments of a normal variable, and the raw and central moments of a compound Poisson sum of normal jumps '
  'over an interval, equal those of the distribution for all means, variances, intensities and interval lengths, at '
  'every order.', ['inputs', 'histories'], 'all parameter values; order 0..16 (thorough 30), calls in any order; the differentiation steps behind them for all exponents', WHYV, ['cpp_mom.py'],
  [dict(name='mnorm, mcpp, cmcpp', where='src/ajdmom/cpp_mom.py')], 'equality of polynomials decided by z3')
p('A07', 'Simplifying a moment formula never changes its value',
  'Each simplification step that rewrites a moment formula (substituting sqrt(1-rho^2), folding exponents of k, h, '
  'sigma and rho) yields a formula with the same value at every parameter point, whatever '
  'the exponents and coefficients of the input formula.',
  ['inputs'], 'symbolic exponents and coefficients of formulas with up to 2 terms (exponents that are expanded binomially: up to 12 / 3, thorough 20 / 6); all parameter values',
  'A rewriting that is wrong only for odd/even or negative exponents is not met by the moments the tests compare.',
  ['utils.py', 'mdl_1fsv/cond_cmom.py', 'mdl_svvj/cond2_cmom.py'],
  [dict(name='simplify_rho and the per-model simplify functions', where='src/ajdmom/utils.py')],
  'value equality decided for symbolic exponents')

# ---------------------------------------------------------------- integral layer
p('B01', 'Elementary exponential-monomial integrals are exact',
  'The closed form returned for a definite integral of e^{n k s} s^m (one- and two-factor versions, and the versions '
  'split at jump times) equals the integral for every integer n (including zero and negative), every power m and '
  'every interval endpoint.', ['inputs'],
  'symbolic rate multiples n (n1, n2), endpoints; power m = 0..6 (thorough 10)',
  'Tests use literal n and m; the n = 0 branch and sign errors at particular n, m combinations are invisible to them.',
  ['ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py'],
  [dict(name='int_et, c', where='src/ajdmom/ito_mom.py, src/ajdmom/itos_mom.py, src/ajdmom/ito_cond_mom.py')],
  'fundamental-theorem-of-calculus obligations decided for symbolic n')
p('B02', 'Joint Ito-integral moments of the one-factor model are exact',
  'For the square-root process started at a given variance, the returned joint moment of the exponentially weighted '
  'integral of sqrt(v) dW, the plain integral of sqrt(v) dW and the integral of sqrt(v) against an independent Brownian '
  'motion equals the true joint moment as a function of rate, long-run mean, volatility, initial variance and time.',
  ['inputs', 'histories'], 'all parameter values; total order 0..8 (thorough 11), calls in any order; each recursion step for all orders', WHYV, ['ito_mom.py'],
  [dict(name='moment_IEII, recursive_IEII', where='src/ajdmom/ito_mom.py')],
  'equality with an independent moment-ODE solution decided by z3')
p('B03', 'Joint Ito-integral moments of the two-factor model are exact',
  'For two independent square-root factors started at given variances, the returned joint moment of the weighted and '
  'plain stochastic integrals of both factors and of the price noise equals the true joint moment as a function of both '
  'rates, means, volatilities, initial variances and time.',
  ['inputs', 'histories'], 'all parameter values (outside the rate resonances n1*k1+n2*k2=0); total order 0..5 (thorough 7), calls in any order; each recursion step for all orders', WHYV,
  ['itos_mom.py'], [dict(name='moment_IEI_IEII', where='src/ajdmom/itos_mom.py')],
  'equality with an independent moment-ODE solution decided by z3')
p('B04', 'Joint Ito-integral moments given the jumps are exact',
  'Given the initial variance and any recorded variance jumps (times and sizes), the returned joint moment of the '
  'stochastic integrals of the square-root jump process equals the true conditional moment.',
  ['inputs', 'histories'], 'all parameter values, jump times and sizes; total order 0..6/5/4/3 for 0/1/2/3 jumps (thorough 8/6/5/4/3 for 0..4 jumps), calls in any order; each recursion step for all orders and up to 2 summed jumps',
  WHYV, ['ito_cond_mom.py', 'utils.py'], [dict(name='moment_IEII', where='src/ajdmom/ito_cond_mom.py')],
  'equality with an independent piecewise moment-ODE solution decided by z3')
p('B05', 'Joint jump-integral moments of the contemporaneous-jump model are exact',
  'With Poisson arrivals averaged out, the returned joint moments of the stochastic integrals, jump integrals and '
  'summed jumps of the contemporaneous-jump model equal the true moments, as functions of all parameters, the initial '
  'variance and time.', ['inputs', 'histories'], 'all parameter values; total order 0..4, jump integrals alone 0..6 (thorough 5 / 8)', WHYV,
  ['mdl_svcj/ieziziz_mom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py'],
  [dict(name='moment_ieziziz, moment_ieii_ieziziz', where='src/ajdmom/mdl_svcj')],
  'equality with an independent moment-ODE solution decided by z3')
p('B06', 'Stationary variance moments are exact',
  'The returned moments of the stationary variance, with and without variance jumps, satisfy the stationarity equation '
  'of the process at every order and for all parameter values.', ['inputs', 'histories'], 'all parameter values; order 0..8, with jumps 0..7 (thorough 12 / 10)',
  WHYV, ['ito_mom.py', 'mdl_srjd/mom.py', 'mdl_srjd/cmom.py'],
  [dict(name='moment_v, cmoment_v', where='src/ajdmom/ito_mom.py, src/ajdmom/mdl_srjd')],
  'stationarity equations decided by z3')

# ---------------------------------------------------------------- model layer
N = 'equality with an independent moment-ODE solution of the SDE, decided by z3 for all parameter values per order'
p('C01', 'One-factor models: moments of the return are exact',
  'For the stationary one-factor stochastic volatility model, with and without price jumps, the returned moment of any '
  'order of the return over an interval equals that of the model, for every admissible parameter vector.',
  ['inputs', 'histories'], ALLP + '; order 0..8 / with jumps 0..7 (thorough 10/9), calls in any order', WHYV, ['mdl_1fsv/mom.py', 'mdl_1fsvj/mom.py', 'ito_mom.py', 'cpp_mom.py'],
  [dict(name='m, moment_y', where='src/ajdmom/mdl_1fsv/mom.py, src/ajdmom/mdl_1fsvj/mom.py')], N)
p('C02', 'One-factor models: central moments of the return are exact',
  'For the stationary one-factor stochastic volatility model, with and without price jumps, the returned central moment '
  'of any order of the return equals that of the model and does not depend on the drift, for every admissible parameter '
  'vector.', ['inputs', 'histories'], ALLP + '; order 0..8 / with jumps 0..7 (thorough 10/9), calls in any order', WHYV, ['mdl_1fsv/cmom.py', 'mdl_1fsvj/cmom.py'],
  [dict(name='cm, cmoment_y', where='src/ajdmom/mdl_1fsv/cmom.py, src/ajdmom/mdl_1fsvj/cmom.py')], N)
p('C03', 'One-factor models: covariances of successive returns are exact',
  'For the stationary one-factor stochastic volatility model, with and without price jumps, the returned covariance of '
  'any power of a return with any power of the next return equals that of the model for every admissible parameter '
  'vector.', ['inputs', 'histories'], ALLP + '; total order 2..6 (thorough 8/7), calls in any order', WHYV, ['mdl_1fsv/cov.py', 'mdl_1fsvj/cov.py'],
  [dict(name='cov, moment_yy', where='src/ajdmom/mdl_1fsv/cov.py, src/ajdmom/mdl_1fsvj/cov.py')], N)
p('C04', 'Two-factor models: moments of the return are exact',
  'For the stationary two-factor stochastic volatility model, with and without price jumps, the returned moment of any '
  'order of the return over an interval equals that of the model, for every admissible parameter vector.',
  ['inputs', 'histories'], ALLP + '; order 0..5 (thorough 6), calls in any order', WHYV, ['mdl_2fsv/mom.py', 'mdl_2fsvj/mom.py', 'itos_mom.py'],
  [dict(name='m, moment_y', where='src/ajdmom/mdl_2fsv/mom.py, src/ajdmom/mdl_2fsvj/mom.py')], N)
p('C05', 'Two-factor models: central moments of the return are exact',
  'For the stationary two-factor stochastic volatility model, with and without price jumps, the returned central moment '
  'of any order of the return equals that of the model and does not depend on the drift.', ['inputs', 'histories'],
  ALLP + '; order 0..5 (thorough 6), calls in any order', WHYV, ['mdl_2fsv/cmom.py', 'mdl_2fsvj/cmom.py', 'itos_mom.py'],
  [dict(name='cm, cmoment_y', where='src/ajdmom/mdl_2fsv/cmom.py, src/ajdmom/mdl_2fsvj/cmom.py')], N)
p('C06', 'Two-factor models: covariances of successive returns are exact',
  'For the stationary two-factor stochastic volatility model, with and without price jumps, the returned covariance of '
  'any power of a return with any power of the next return equals that of the model for every admissible parameter '
  'vector.', ['inputs', 'histories'], ALLP + '; total order 2..5 (thorough 6), calls in any order', WHYV, ['mdl_2fsv/cov.py', 'mdl_2fsvj/cov.py', 'itos_mom.py'],
  [dict(name='cov, moment_yy', where='src/ajdmom/mdl_2fsv/cov.py, src/ajdmom/mdl_2fsvj/cov.py')], N)
p('C07', 'One-factor model: conditional central moments given the variance are exact',
  'The returned central moment of the return given the initial variance equals that of the one-factor model for every '
  'initial variance and parameter vector.', ['inputs', 'histories'], ALLP + '; order 0..8 (thorough 10), calls in any order', WHYV, ['mdl_1fsv/cond_cmom.py'],
  [dict(name='cond_cm, cond_cmoment_y', where='src/ajdmom/mdl_1fsv/cond_cmom.py')], N)
p('C08', 'Square-root jump diffusion: stationary moments are exact',
  'The returned moments and central moments of the stationary square-root jump diffusion (exponential jumps) equal those '
  'of the stationary law for every parameter vector.', ['inputs', 'histories'], ALLP + '; order 0..9 (thorough 12), calls in any order', WHYV,
  ['mdl_srjd/mom.py', 'mdl_srjd/cmom.py'], [dict(name='m, cm', where='src/ajdmom/mdl_srjd/mom.py, cmom.py')], N)
p('C09', 'Square-root jump diffusion: moments given the initial value are exact',
  'Given the initial value, the returned moments and central moments of the process after an interval, of its discounted '
  'jump sum and of the joint diffusion and jump integrals equal those of the model for every parameter vector.',
  ['inputs', 'histories'], ALLP + '; order 0..8 (thorough 10), calls in any order', WHYV,
  ['mdl_srjd/cond_mom.py', 'mdl_srjd/cond_cmom.py', 'mdl_srjd/cond_ie_iez_mom.py', 'mdl_srjd/cond_ie_iez_cmom.py',
   'mdl_srjd/iez_mom.py', 'mdl_srjd/iez_cmom.py'],
  [dict(name='m, cm, m_ie, m_ie_iez, cm_ie_iez', where='src/ajdmom/mdl_srjd')], N)
p('C10', 'Square-root jump diffusion: moments given the initial value and jumps are exact',
  'Given the initial value and any jump times and sizes in the interval, the returned conditional moments and central '
  'moments of the square-root jump diffusion equal those of the model.', ['inputs', 'histories'],
  ALLP + ', jump times and sizes in any record order; order 0..12/10/8/6/6/4/3 for 0..6 jumps (thorough 16/12/10/8/7/6/4), calls in any order', WHYV,
  ['mdl_srjd/cond2_mom.py', 'mdl_srjd/cond2_cmom.py'],
  [dict(name='m, cm', where='src/ajdmom/mdl_srjd/cond2_mom.py, cond2_cmom.py')], N)
p('C11', 'SV model with variance jumps: conditional moments given jumps are exact',
  'Given the initial variance and the variance jumps in the interval, the returned conditional moments and central '
  'moments of the return equal those of the model for every parameter vector and every jump record.', ['inputs', 'histories'],
  ALLP + ', jump times and sizes in any record order; order 0..6/5/5/3/3/2 for 0..5 jumps (more when thorough), calls in any order', WHYV, ['mdl_svvj/cond2_mom.py', 'mdl_svvj/cond2_cmom.py', 'ito_cond_mom.py'],
  [dict(name='m, cm', where='src/ajdmom/mdl_svvj')], N)
p('C12', 'SV model with independent jumps: conditional moments given jumps are exact',
  'Given the initial variance and the variance jumps in the interval, the returned conditional moments and central '
  'moments of the return of the model with independent price and variance jumps equal those of the model, price jumps '
  'averaged out.', ['inputs', 'histories'],
  ALLP + ', jump times and sizes in any record order; order 0..6/5/5/3/3/2 for 0..5 jumps (more when thorough), calls in any order', WHYV, ['mdl_svij/cond2_mom.py', 'mdl_svij/cond2_cmom.py'],
  [dict(name='m, cm', where='src/ajdmom/mdl_svij')], N)
p('C13', 'SV model with contemporaneous jumps: moments given variance jumps are exact',
  'Given the initial variance and the variance jumps in the interval, the returned conditional moments and central '
  'moments of the return of the model with contemporaneous correlated jumps equal those of the model.', ['inputs', 'histories'],
  ALLP + ', jump times and sizes in any record order; order 0..6/5/5/3/3/2 for 0..5 jumps (more when thorough), calls in any order', WHYV, ['mdl_svcj/cond2_mom.py', 'mdl_svcj/cond2_cmom.py'],
  [dict(name='m, cm', where='src/ajdmom/mdl_svcj')], N)
p('C14', 'SV model with contemporaneous jumps: moments given the variance are exact',
  'Given only the initial variance, the returned moments and central moments of the return of the model with '
  'contemporaneous correlated jumps equal those of the model for every parameter vector.', ['inputs', 'histories'],
  ALLP + '; order 0..5 (thorough 6), calls in any order', WHYV, ['mdl_svcj/cond_mom.py', 'mdl_svcj/cond_cmom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py'],
  [dict(name='m_y, cm_y', where='src/ajdmom/mdl_svcj')], N)
p('C15', 'SV model with contemporaneous jumps: unconditional moments are exact',
  'With a stationary initial variance, the returned moments and central moments of the return of the model with '
  'contemporaneous correlated jumps equal those of the model for every parameter vector.', ['inputs', 'histories'],
  ALLP + '; order 0..5 (thorough 6), calls in any order', WHYV, ['mdl_svcj/mom.py', 'mdl_svcj/cmom.py'],
  [dict(name='unm_y, cm_y', where='src/ajdmom/mdl_svcj')], N)

# ---------------------------------------------------------------- derivatives, decoding, guards, simulation
p('D01', 'Parameter derivatives of moments and covariances are exact',
  'The returned partial derivative of a moment, central moment or covariance with respect to any supported parameter '
  'equals the derivative of the corresponding moment function. Asking for an unsupported parameter is refused with an '
  'error.', ['inputs', 'histories'], ALLP + '; every supported parameter; orders up to 5 (two factors 3), l1+l2 up to 4 (3); the term-by-term differentiation for all exponents', 'Derivatives have hardly any test; a wrong chain-rule '
  'factor for one parameter or exponent is only visible at that parameter.',
  ['mdl_1fsv/mom.py', 'mdl_1fsv/cmom.py', 'mdl_1fsv/cov.py', 'mdl_2fsv/mom.py', 'mdl_2fsv/cmom.py', 'mdl_2fsv/cov.py',
   'mdl_1fsvj/mom.py', 'mdl_2fsvj/mom.py'],
  [dict(name='dpoly, dm, dcm, dcov', where='src/ajdmom/mdl_1fsv, mdl_1fsvj, mdl_2fsv, mdl_2fsvj')],
  'symbolic differentiation of the value function compared by z3')
p('D02', 'Numeric evaluation of a formula uses every exponent with its own variable',
  'Evaluating any formula in the documented variable layout of a model at a parameter vector yields the sum over terms of '
  'coefficient times each named variable raised to its own exponent, for every exponent combination.', ['inputs'],
  'symbolic exponents and coefficients; up to 2 terms and 2 jumps (thorough 3); all parameter values',
  'Each evaluator is only exercised with the exponents that a few moments produce; a swapped pair of variables '
  'with equal values or zero exponents is invisible.',
  ['mdl_1fsv/mom.py', 'mdl_1fsvj/mom.py', 'mdl_2fsv/mom.py', 'mdl_2fsvj/mom.py', 'mdl_srjd/cond_mom.py', 'mdl_svvj/cond2_mom.py',
   'mdl_svij/cond2_mom.py', 'mdl_svcj/mom.py'],
  [dict(name='poly2num per model', where='src/ajdmom/mdl_*')], 'identity with symbolic exponents decided by z3')
p('D03', 'Negative orders are refused',
  'The functions that validate their order refuse every negative one with ValueError and never answer it with a number: moments of '
  'normal and compound Poisson variables (mnorm, mcpp, cmcpp), the moments of the contemporaneous-jump model (moment_y, cmoment_y and '
  'their numeric versions, unconditional and given the variance), the stationary square-root jump-diffusion moments, and the '
  'jump-integral moments (any negative component is refused). The joint Ito-integral moments (moment_IEII of ito_mom and '
  'ito_cond_mom, moment_IEI_IEII) refuse every negative total order.',
  ['inputs'], 'every negative integer order; every position of a negative component', 'Tests only ask for valid orders; the invalid ones are unbounded.',
  ['cpp_mom.py', 'ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py', 'mdl_svcj/mom.py', 'mdl_svcj/cmom.py', 'mdl_svcj/cond_mom.py',
   'mdl_svcj/ieziziz_mom.py', 'mdl_srjd/mom.py', 'mdl_srjd/iez_mom.py'],
  [dict(name='order guards', where='src/ajdmom')], 'path exploration over symbolic orders, z3 decides the feasible paths')
p('E01', 'One- and two-factor simulators follow the documented Euler scheme',
  'Given any random draws, each simulated path of the one- and two-factor models (with and without price jumps) follows '
  'the documented Euler discretisation of the model equations with truncated variance, and the returned returns are the '
  'differences of the simulated log-price over the requested interval.', ['inputs', 'histories'],
  'all parameter values, initial variances and random draws; up to 3 returns and 5 steps in total, any number of truncations', 'Tests only compare sample averages of one seeded path, if anything.',
  ['mdl_1fsv/euler.py', 'mdl_1fsvj/euler.py', 'mdl_2fsv/euler.py', 'mdl_2fsvj/euler.py'],
  [dict(name='r1FSV, r1FSVJ, r2FSV, r2FSVJ', where='src/ajdmom/mdl_*/euler.py')], 'draws are symbolic; per-path equality by z3')
p('E02', 'Variance-jump simulators follow the documented scheme',
  'Given any random draws, the simulators of the models with variance jumps apply each jump at its own time and size, '
  'evolve the variance and price between jumps by the documented scheme and return the price increments of the '
  'requested interval.', ['inputs', 'histories'],
  'all parameter values, jump sizes, jump times and random draws; up to 3 jumps and 5 steps', 'Tests only compare sample averages of one seeded path, if anything.',
  ['mdl_svvj/euler.py', 'mdl_svij/euler.py', 'mdl_svcj/euler.py', 'mdl_srjd/euler.py'],
  [dict(name='rSVVJ, rSVIJ, rSVCJ, rSRJD', where='src/ajdmom/mdl_*/euler.py')], 'draws are symbolic; per-path equality by z3')

# ---------------------------------------------------------------- purity
p('F01', 'Derivations and evaluations do not depend on what was called before',
  'Every function deriving a moment formula returns the same polynomial (terms, coefficients, variable list) whatever was '
  'called before in the process, even if the caller changed polynomials it received earlier. Every evaluator returns the same '
  'value for the same arguments whatever was called before, including when the caller reuses one parameter dictionary and '
  'changes its entries. None of them modifies the dictionaries, tables and tuples passed to it.',
  ['inputs', 'histories'], 'all values a caller may write into earlier results, all parameter values; the derivations and evaluators of '
  'every model at orders up to 3 (thorough 5), called in forward and reverse order',
  'Each test calls a function once in a fresh process; hidden state, memoisation and shared tables only show for particular '
  'sequences of calls.', ['ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py', 'cpp_mom.py', 'mdl_1fsv/mom.py', 'mdl_2fsv/mom.py',
                          'mdl_srjd/mom.py', 'mdl_svvj/cond2_mom.py', 'mdl_svij/cond2_mom.py', 'mdl_svcj/mom.py'],
  [dict(name='moment and evaluation functions', where='src/ajdmom')],
  'noninterference with symbolic overwritten results and symbolic parameters, decided by z3')

TECH = {'A': 'symbolic execution of the real Python with symbolic exponents/coefficients, z3 verdict per path',
        'B': 'symbolic execution of the real Python, z3 equality with an independent reference',
        'C': 'symbolic execution of the real Python, z3 equality with an independent moment-ODE reference',
        'D': 'symbolic execution of the real Python, z3 verdict per path',
        'E': 'symbolic execution of the real Python with symbolic random draws, z3 verdict per path',
        'F': 'symbolic execution of the real Python, noninterference of symbolic earlier results decided by z3'}
TRUST = ('; within the stated order/size bounds for all real parameter values; trusts z3, the symbolic proxies (symx) and '
         'real-number semantics (no floating-point rounding)')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(dict(
                id=x['id'], title=x['title'], statement=x['statement'],
                quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                anchors=dict(files=x['files'], mechanism=x['mech'],
                             observe_at=x['obs'] or ['return values of the public functions'], hook_needed=None))) + '\n')
    checks, na = [], []
    for x in P:
        if x['na'] is None and os.path.exists(os.path.join(ROOT, 'checks', x['id'] + '.py')):
            checks.append(dict(property=x['id'], quick_cmd='./run.sh %s quick' % x['id'],
                               thorough_cmd='./run.sh %s thorough' % x['id'],
                               evidence_file='evidence/%s.json' % x['id'],
                               technique='solver-based: ' + TECH[x['id'][0]], level=x['level'],
                               level_note=x['note'] + TRUST))
        else:
            na.append(dict(property=x['id'], reason=x['na'] or 'check not built yet'))
    json.dump(dict(version=1, setup_cmd='python3-vt -B -c "import z3, mpmath, numpy, scipy"', checks=checks,
                   not_applicable=na,
                   notes='run.sh ID [quick|thorough]; no hooks are needed in /repo, the sources are executed as they are'),
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    for x in P:
        assert len(x['title']) <= 80, x['title']


main()
