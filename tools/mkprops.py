"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []; BAD = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    BAD.append((id,len(title))) if len(title)>80 else None
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return values of the public calls named in mechanism"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

D = 'frm/utils/daycount.py'; S = 'frm/utils/schedule.py'; T = 'frm/utils/tenor.py'
BD = 'frm/utils/business_day_calendar.py'; E = 'frm/enums/utils.py'; EH = 'frm/enums/helper.py'
ZC = 'frm/term_structures/zero_curve.py'; SC = 'frm/term_structures/swap_curve.py'
HF = 'frm/term_structures/historical_swap_index_fixings.py'; BH = 'frm/term_structures/bootstrap_helpers.py'
FXH = 'frm/term_structures/fx_helpers.py'; VS = 'frm/term_structures/fx_volatility_surface.py'
IR = 'frm/term_structures/interest_rate_option_helpers.py'
BL = 'frm/pricing_engine/black76_bachelier.py'; GK = 'frm/pricing_engine/garman_kohlhagen.py'
HE = 'frm/pricing_engine/heston.py'; CM = 'frm/pricing_engine/cosine_method_generic.py'
SA = 'frm/pricing_engine/sabr.py'; CS = 'frm/pricing_engine/clewlow_strickland_1_factor.py'
GB = 'frm/pricing_engine/geometric_brownian_motion.py'; MC = 'frm/pricing_engine/monte_carlo_generic.py'
VG = 'frm/pricing_engine/volatility_generic.py'; HW = 'frm/pricing_engine/hw1f.py'

prop('C01', 'Day counts and year fractions follow the market conventions for every date pair',
 'For every ordered pair of dates and every supported basis (30/360, 30E/360, 30E/360 ISDA with its termination-date rule, ACT/360, ACT/365, ACT/366, ACT/ACT) the day count and the year fraction equal the published ISDA definition. Passing scalars, lists, series, indexes or a scalar against a vector gives the same number element by element, and a period whose end is before its start is refused. For the actual-day bases the count is additive over adjacent periods and zero for an empty period.',
 ['inputs'], 'all date pairs (month ends, leap days, century years, termination flags), all seven bases, all accepted date containers and broadcast shapes',
 'The tests sample a handful of dates copied from the ISDA sheet; the conventions differ only on month-end/leap/termination combinations, which an independent definition must cover for every pair.',
 [D], [('day_count', D), ('year_frac', D), ('to_datetimeindex', D)])

prop('C02', 'Generated schedules partition the contract life with right roll dates and stubs',
 'Every accepted schedule starts at the effective date, ends at the termination date and is contiguous: each period starts where the previous ended and no period is reversed. Interior dates are the anchor date plus or minus whole multiples of the frequency (never accumulated step by step), moved to the requested roll day and then rolled to a good business day; without explicit stub dates the schedule is generated backward so that only the first period can be irregular, while explicit stub choices or user-given first-period-end and last-period-start dates put the irregular period exactly where they say.',
 ['inputs', 'configurations'], 'all start/end dates, frequencies, roll conventions, roll days, stub choices, user stub dates and business-day calendars',
 'test_schedule.py checks seven fixed configurations; the month-end, leap-day and stub merging logic branches on the full product of dates, frequency, stubs and calendars.',
 [S, E], [('make_schedule', S), ('generate_date_schedule', S), ('PeriodFreq.multiply_date_offset', E)])

prop('C03', 'Coupon and notional schedules carry right payment dates, accruals and notionals',
 'Each period of a coupon or notional schedule pays on the period start (in advance) or end (in arrears) rolled to a good business day and moved by the payment delay in business days, and its accrual day count and year fraction are those of the requested basis for that period. Notional outstanding per period is what the caller gave (constant or amortising), and signed notional payments are conserved: initial exchange, amortisation steps and final exchange add up according to the exchange option, and with both exchanges they net to zero.',
 ['inputs', 'configurations'], 'all schedules, exchange options, payment delays and timings, notional vectors and calendars',
 'Tests never build the notional and coupon schedule classes with exchanges or amortisation; sign and placement errors only show in the sums over whole schedules.',
 [S], [('BaseSchedule.add_payment_dates', S), ('NotionalSchedule.add_notional_schedule', S), ('CouponSchedule', S), ('add_period_daycount/add_period_yearfrac', S)])

prop('C04', 'Joint business-day calendars observe exactly the union of holidays and weekends',
 'A calendar requested for a set of currencies or financial centres treats a date as a business day if and only if it is a business day in every one of them: the union of their holidays and of their weekends. The result does not depend on the order, letter case or repetition of the keys; no key means plain Monday to Friday; an unknown key is refused.',
 ['inputs', 'configurations'], 'all subsets and orderings of supported keys, all dates 1990-2099',
 'The single existing test checks a few keys; union semantics have to hold for each subset and each date, including Friday/Saturday weekend markets.',
 [BD], [('get_busdaycal', BD), ('convert_weekend_to_weekmask', BD), ('get_holidays_object', BD)])

prop('C05', 'Tenors are normalised canonically and mean the same date shift however spelled',
 'Every spelling of a tenor (letter case, spaces, singular or plural units, overnight, tom-next, spot words) normalises to one canonical code, normalising twice changes nothing, and the canonical code maps to the calendar shift it names (days, weeks, months, years, or years and months combined) with ill-formed tenors refused. Business-day helpers agree with each other: shifting a date by n business days and asking for the implied offset gives back n, and curve date, spot lag and spot date are resolved consistently from any sufficient subset, inconsistent ones being refused.',
 ['inputs', 'configurations'], 'all tenor spellings and magnitudes, all dates, calendars and currency pairs',
 'The one tenor test lists literals; the round-trip between forward shift and implied offset is never executed.',
 [T], [('clean_tenor', T), ('tenor_to_date_offset', T), ('workday', T), ('calc_implied_business_day_offset', T), ('resolve_fx_curve_dates', T)])

prop('C06', 'Conventions parse from any accepted spelling to one meaning or are refused',
 'For every convention enumeration (day count, frequency, compounding, roll day, roll convention, timing, stub, notional exchange, interpolation, extrapolation, pay/receive, buy/sell) each accepted spelling or alias resolves to exactly the documented member irrespective of letter case and surrounding blanks, canonical values round-trip, validity predicates accept every canonical value and nothing that parsing refuses, missing values give the documented default where there is one, and anything else is refused rather than silently mapped. Pay/receive and buy/sell carry opposite signs.',
 ['inputs'], 'all members, aliases, letter cases, blanks, numeric and missing values, and arbitrary non-member strings',
 'Tests do not touch most of the enumerations; a wrong alias silently prices a trade on the wrong convention.',
 [E, EH], [('from_value / is_valid / default', E), ('get_enum_member', EH), ('clean_enum_value', EH)])

prop('C07', 'Zero rates, discount factors and compounding conversions are mutually inverse',
 'For every compounding convention, converting a zero rate to a discount factor and back (and the reverse) returns the input, discount factors equal the textbook formula, and converting a rate between two compounding conventions leaves the implied discount factor unchanged for every term (for simple interest, over one year). This holds for scalars and arrays, negative rates and any positive term.',
 ['inputs'], 'all compounding conventions and pairs of them, rates from deeply negative to large, terms from days to decades',
 'No existing passing test exercises the conversion algebra.',
 [E], [('calc_zero_rate_from_discount_factor', E), ('calc_discount_factor_from_zero_rate', E), ('convert_rate_to', E)])

prop('C08', 'Zero curves reproduce their inputs and interpolate as their method prescribes',
 'A curve built from zero rates or discount factors, on tenors, dates, day counts or year fractions, returns exactly those values at its pillars, and between pillars the discount factor is the one defined by the chosen interpolation (log-linear discount factors, or an interpolating cubic spline on log discount factors or on continuously compounded zero rates), whether queried by date, day count or year fraction, scalar or vector, sorted or not. Results are aligned one-to-one with the query, and queries outside the curve follow the declared extrapolation (none gives NaN, flat repeats the values at the nearest end) instead of being dropped or reordered.',
 ['inputs', 'configurations'], 'all pillar sets, input forms, interpolation and extrapolation methods, day-count bases and query shapes and orders',
 'The zero curve tests of the repository do not run at the pinned commit, and would check two fixed curves only.',
 [ZC], [('ZeroCurve.__post_init__', ZC), ('get_discount_factors', ZC), ('get_zero_rates', ZC), ('index_daily_data', ZC)])

prop('C09', 'Forward rates from a zero curve admit no arbitrage in any quoting convention',
 'For every curve and every period, the simple, continuous and annually compounded forward rates each reproduce the ratio of the discount factors at the period ends under their own compounding, consecutive forward growth factors chain to the whole-period one, daily compounded forwards compound the overnight accruals to the same ratio, and averaged overnight forwards are the mean of the overnight simple forwards (weighted: over every calendar day of the period, simple: over its business days). Instantaneous forwards integrate back to the log discount factor.',
 ['inputs', 'configurations'], 'all curves, interpolation methods, period sets, forward conventions',
 'Existing tests never query forwards; an error in one convention is invisible in the others.',
 [ZC], [('get_forward_rates', ZC), ('get_instantaneous_forward_rate', ZC)])

prop('C10', 'Shifting a curve moves every zero rate by the shift, leaving the original intact',
 'A parallel shift returns a new curve whose continuously compounded zero rates equal the original ones plus the shift at every pillar and whose discount factors are consistent with that, shifting by zero or by a shift and its opposite recovers the original curve, and neither the original curve nor data passed in by the caller is altered.',
 ['inputs', 'histories'], 'all curves, shifts and sequences of shifts',
 'No test calls the shift; aliasing between the original and the shifted curve needs a history to show.',
 [ZC], [('flat_shift', ZC)])

prop('C11', 'Historical fixings produce the contractual floating coupon for each period',
 'For every set of daily risk-free-rate fixings (rows in any order) and every accrual period covered by them, each calendar day of the period carries the fixing of that day, or the latest one before it on a non-publication day; the daily-compounded coupon compounds one day of each, the weighted average is their mean over the calendar days, and the simple average is the mean of the fixings published in the period. Growth chains over adjacent periods, and periods the history does not cover are refused. Term-rate lookups return, aligned with the query, the fixing published on the requested date or the latest one before it, never a later one.',
 ['inputs', 'histories'], 'all fixing histories (gaps, weekends), accrual periods, averaging methods and day-count bases',
 'No test exercises the fixing classes.',
 [HF], [('RFRFixings.get_coupon_rates', HF), ('TermFixings.index_historical_fixings', HF)])

prop('C12', 'Swap-index projections use history for the past and the curve for the future',
 'For every set of periods, in any order, rates of periods before the curve date come from historical fixings, rates of periods starting on or after it are the forward rates of the curve in the requested convention, and a daily-compounded risk-free-rate period straddling the curve date combines the accrued historical part with the projected part so that growth over the whole period is the product of both (a weighted average is the time-weighted mean of both). Rates are aligned with the periods asked for, and a curve and history with different day counts are refused.',
 ['inputs', 'histories'], 'all curves, fixing histories, period sets before, across and after the curve date, projection methods',
 'No test constructs a swap curve.',
 [SC, HF], [('TermSwapCurve.get_fixings', SC), ('RFRSwapCurve', SC)])

prop('C13', 'Curve building blocks turn market quotes into discount factors repricing them',
 'Deposit and futures helpers return, for every quote set in any row order, effective and maturity dates (overnight from the curve date, tomorrow-next one business day later, other deposits from the settlement date, maturities rolled following) and discount factors that reprice each quoted instrument under its own day count: the ratio of the discount factors at effective and maturity date is one plus rate times accrual, effective-date factors being log-linear in time between what is already bootstrapped. A futures rate is one hundred minus price over one hundred, less the convexity adjustment for the forward rate. ASX bill futures settle on the second Friday of the contract month, each contract keeping its own dates.',
 ['inputs'], 'all quote sets, tenors, curve dates, calendars and contract codes',
 'No test runs the helper functions.',
 [BH], [('cash/futures helpers', BH)])

prop('C14', 'Black and Bachelier prices obey pricing identities and invert to volatility',
 'For every forward, strike, expiry, volatility and shift, the lognormal (shifted) and normal model prices equal the closed-form expectation, satisfy put-call parity and the intrinsic and upper bounds, rise with volatility and are convex in strike. Implied-volatility inversion returns the volatility that produced a price, for either model and option side, scalar or vector, and converting a volatility between the two models preserves the option price.',
 ['inputs'], 'all forwards, strikes, maturities, volatilities, discount factors, shifts and option sides in the models domain',
 'The four existing tests compare single option values.',
 [BL], [('black76_price', BL), ('bachelier_price', BL), ('*_solve_implied_vol', BL), ('normal_vol_to_black76_sln / black76_sln_to_normal_vol', BL)])

prop('C15', 'Black and Bachelier sensitivities equal the derivatives of the price',
 'Every reported analytical sensitivity equals the derivative of the model price in the quantity it names, in its documented unit, for either option side, with any shift; every numerical sensitivity agrees with the analytical one within finite-difference accuracy.',
 ['inputs'], 'all market states, shifts, option sides and sensitivities',
 'Tests compare one parameter set; sensitivities with a shift are never compared to the price they differentiate.',
 [BL], [('black76_price(analytical_greeks, numerical_greeks)', BL), ('bachelier_price(...)', BL)])

prop('C16', 'FX vanilla prices and sensitivities are consistent with covered interest parity',
 'For every spot, strike, expiry, pair of rates, volatility, option side and forward override, the FX option price equals the closed form on the forward, satisfies put-call parity on the forward, foreign-domestic symmetry and the no-arbitrage bounds, and each reported sensitivity (analytical or numerical) is the derivative of that price in the quantity it names in its documented unit.',
 ['inputs'], 'all spot, strike, expiry, rate, volatility, side and forward inputs, scalar and vector',
 'Three tests check single prices and one delta set; time decay and rate sensitivities are not compared with the price.',
 [GK], [('garman_kohlhagen_price', GK)])

prop('C17', 'Strikes and volatilities solved from FX quotes reproduce the quote exactly',
 'For every delta convention (spot or forward, regular or premium adjusted), option side and market state, the strike solved from a delta has that delta, the at-the-money delta-neutral strike makes call and put deltas cancel, and on the premium-adjusted side the economically relevant strike is chosen. Implied volatility solved from a price reprices it, for every attainable price.',
 ['inputs', 'configurations'], 'all deltas in the quoted range, sides, delta conventions, rates, volatilities, expiries; scalar and vector inputs',
 'Tests cover single points in one or two conventions; premium-adjusted deltas are not monotonic so the root must be right everywhere.',
 [GK], [('solve_strike_from_delta', GK), ('solve_implied_vol', GK)])

prop('C18', 'All Heston pricing methods agree with each other and with no-arbitrage',
 'For every admissible parameter set, strike and expiry the five semi-analytical Heston pricers return the same option value within the accuracy of their quadrature or truncation and match an independent evaluation of the model, each in its range of validity (finite damped moments for the Fourier methods, moderate kurtosis for the cosine method); put-call parity, intrinsic bounds, monotonicity and convexity in strike hold; and with vanishing vol-of-vol prices collapse to the deterministic-variance lognormal price.',
 ['inputs'], 'all admissible model parameters, strikes, expiries, rates, option sides and pricing methods',
 'One test compares the methods on one grid; branch cuts and truncation errors appear only in parts of parameter space.',
 [HE, CM], [('heston_price_vanilla_european', HE), ('heston_cosine', HE), ('cosine_method_generic', CM)])

prop('C19', 'Heston calibration reprices the smile it was fitted to',
 'Calibrating to any five-point smile generated by the model (at the fixed mean reversion and initial variance the fit uses) returns admissible parameters whose repriced volatilities match the quoted ones within fitting tolerance, reports volatilities, strikes and errors consistent with repricing under the returned parameters, and leaves the caller data unchanged.',
 ['inputs'], 'model-generated smiles across parameter space, delta conventions, pricing methods',
 'One calibration test on one smile.',
 [HE], [('heston_calibrate_vanilla_smile', HE)])

prop('C20', 'Heston paths have non-negative variance and reproduce the model distribution',
 'Simulated Heston paths start at the given spot and variance, never carry negative or non-finite variance in any scheme (nor a non-positive spot in the quadratic-exponential schemes), are reproducible for given draws, agree path by path between the scalar and vectorised implementations and with the published scheme driven by the same draws, and as an ensemble satisfy the martingale property of the discounted asset, the model mean of variance and the semi-analytical option prices within sampling and discretisation error.',
 ['inputs', 'schedules'], 'all admissible parameters, schemes, time grids, seeds and random draws',
 'Two tests compare one parameter set; scheme switching depends on the random state reached.',
 [HE, MC], [('heston_simulate', HE), ('generate_rand_nbs', MC)])

prop('C21', 'SABR volatilities match the published expansion and calibrations invert it',
 'For every parameter set, forward, strike and shift, the smile volatility equals the published shifted-lognormal expansion and is continuous through the money, the level parameter solved from an at-the-money volatility reproduces that volatility, and fitting a smile generated by the model reprices it with parameters inside their documented ranges (elasticity between 0 and 1, correlation between -1 and 1, positive level and volatility of volatility).',
 ['inputs'], 'all SABR parameters, forwards, strikes, shifts, expiries, scalar and vector inputs',
 'Three tests compare with single published numbers.',
 [SA], [('calc_sln_vol_for_strike_from_sabr_params', SA), ('solve_alpha_from_sln_vol', SA), ('fit_sabr_params_to_sln_smile', SA)])

prop('C22', 'Simulation random numbers are reproducible, standard normal, rightly correlated',
 'Random draws have the requested shape, are identical for the same seed and differ for different seeds, use exact antithetic pairs in adjacent positions when asked (for odd and even path counts without losing a path or reusing a draw), have standard-normal marginals, and correlated draws have the requested correlation with unit variance for every positive-definite correlation matrix, whether the draws are two- or three-dimensional.',
 ['inputs', 'configurations'], 'all path, step and factor counts, seeds, antithetic settings and correlation matrices',
 'No test inspects the draws.',
 [MC], [('generate_rand_nbs', MC), ('normal_corr', MC)])

prop('C23', 'Simulated lognormal and mean-reverting paths follow their model draw by draw',
 'For every drift and volatility term structure, time grid, number of underlyings and set of draws, simulated lognormal paths start at today value and equal the closed-form solution driven by the same draws, so the ensemble reproduces the forward and the integrated variance. One-factor mean-reverting spot paths start on the forward curve, follow it exactly when volatility is zero, use their own draws on every path however many simulation loops are needed, are reproducible, and as an ensemble have the forward curve as mean and the mean-reverting variance and reversion speed.',
 ['inputs', 'schedules'], 'all parameter term structures, time grids, forward curves, segment and path counts, draw matrices and loop splits',
 'One test on one configuration.',
 [GB, CS], [('simulate_gbm_path', GB), ('clewlow_strickland_1_factor_simulate', CS)])

prop('C24', 'Forward volatility and variance interpolation conserve total variance',
 'For every volatility term structure, forward volatilities satisfy total variance of the far date equals total variance of the near date plus forward variance over the gap, flat-forward interpolation returns pillar volatilities at (and beyond) the pillars and linear total variance in between, for scalars, vectors and tables alike; a forward volatility over an empty gap is not a number, and negative forward variance or reversed times anywhere in a batch are refused rather than turned into a number.',
 ['inputs'], 'all volatility pillars, times, scalar and vector inputs',
 'No test covers the variance algebra.',
 [VG], [('forward_volatility', VG), ('flat_forward_interp', VG)])

prop('C25', 'The one-factor Hull-White model reprices its initial curve and its own options',
 'For every initial curve on a spline interpolation, mean reversion above zero and volatility, both bond formulas reproduce the input curve at time zero and the affine bond price at later times for any short rate; zero-coupon bond option, optionlet and swaption prices satisfy put-call parity and equal the closed form, with critical bond prices that all come from one short rate and make the swap par; and simulated short-rate paths follow the chosen scheme draw by draw, discount along their own path and reproduce the curve, mean and variance of the model in expectation.',
 ['inputs', 'schedules'], 'all curves, mean reversions, volatilities, expiries, strikes and seeds',
 'The repository Hull-White tests fail at the pinned commit.',
 [HW], [('HullWhite1Factor', HW)])

prop('C26', 'FX forward curves and quote conventions are resolved consistently',
 'For every set of spot and outright forward quotes given by tenor, fixing date, delivery date or any mixture, in any row order, the FX term structure derives the missing fixing and delivery dates exactly one spot lag apart in business days of the calendar, keeps each quote with its own row in date order, and the forward curve returns the quoted forwards at those dates, time-linear values in between and, outside, the nearest quote (or NaN when flat extrapolation is off), whatever the order or repetition of the queried dates. Volatility quote headers of every documented spelling are recognised as the instrument they name; risk-reversal and butterfly quotes recombine with the at-the-money quote into call and put volatilities that give back the quotes; smile quotes are ordered from low to high strike with their signed deltas; warnings about the delta convention are raised exactly for pairs and rows that depart from the market convention. Caller tables are not altered.',
 ['inputs', 'configurations'], 'all currency pairs, dates, quote sets, calendars and quote strategies',
 'Two regex/surface tests use one market snapshot.',
 [FXH], [('fx_forward_curve_helper', FXH), ('fx_term_structure_helper', FXH), ('interp_fx_forward_curve', FXH), ('check_delta_convention', FXH)])

prop('C27', 'The FX volatility surface reprices its quotes and is consistent between queries',
 'For every admissible set of quotes (calls and puts, strategies or a mixture, any delta convention per expiry) the FX volatility surface places each quoted delta at the strike that has it, returns the quoted volatility there, interpolates total variance linearly in time between expiries per delta and the declared spline over strikes, with the market forward and both zero curves at that expiry; a parametric smile stays within its fit error of quotes it can represent. Vanilla prices from it equal the closed-form price at the surface volatility on the market forward and respect put-call parity. Answers do not depend on earlier queries, on batching, order or repeats, rows are aligned with the query, expiries outside the quoted range and curves of another date are refused, and the tables passed in are not altered.',
 ['inputs', 'configurations', 'histories'], 'all quote sets, smile methods, delta conventions, query sequences, batches and orders',
 'One test checks pillar reproduction on one snapshot; the surface caches daily smiles so answers may depend on history.',
 [VS, FXH, GK], [('FXVolatilitySurface.interp_vol_surface', VS), ('price_vanilla_european', VS)])

prop('C28', 'Rate-option quotes are read with their stated unit, strike and dates',
 'For every spelling of a rate-option quote header (optional sign, whole or fractional size, bp, bps or %, any case and spacing) the standardised column name states the size in basis points exactly, and the strike or strike offset reported for it is that size in decimal, the same whichever unit it was written in; the at-the-money column is recognised in every spelling, exactly one is required for relative quotes, unrelated columns are left alone and malformed ones refused. A cap/floor quote table is completed with settlement, effective, last-expiry and termination dates and year fractions per the calendar and tenors, forwards that are the annuity-weighted forwards of the quarterly optionlets up to each termination, strikes at the forward plus the offset and the out-of-the-money side, with each volatility staying in its row and the caller\'s table unaltered.',
 ['inputs', 'configurations'], 'all quote header spellings, units, strike ladders, quote tables, curves and calendars',
 'No test runs the quote standardisation.',
 [IR], [('standardise_relative_quote_col_names', IR), ('standardise_atmf_quote_col_names', IR), ('process_capfloor_quotes', IR)])

prop('C29', 'Calculations leave their inputs untouched and give the same answer every time',
 'No pricing, curve, schedule, quote, volatility or simulation function alters the arrays, tables, lists or dictionaries the caller passed in, also when it refuses them, nor process-wide state (numpy\'s random stream outside simulation, numeric error and warning settings, working directory, environment). Repeating a call with equal inputs (and seed, where there is one) gives an identical result whatever was computed in between, asking an object a question twice gives the same answer, and writing into a returned result changes no later answer.',
 ['inputs', 'histories'], 'all public computation entry points, input containers, and interleavings of calls',
 'Tests use each input once; aliasing and hidden state need repeated and interleaved calls to appear.',
 [BL, GK, HE, ZC, VS, S, VG, GB], [('public functions of all modules', 'frm/')])

prop('C30', 'Vectorised inputs give element by element the scalar answer',
 'For every vectorised pricing, volatility, curve and day count function, a vector of inputs (with any mix of vectors, length-one vectors and numbers the function takes, option sides, greeks and intrinsic/time split included, in any order and with repeats, limit cases such as at-the-money or expired elements among others) returns for each element what the scalar call returns for that element, in the same position and with the full length.',
 ['inputs', 'configurations'], 'all broadcast shapes and mixes of scalar and vector arguments of the vectorised entry points',
 'Tests call each function in one shape.',
 [BL, GK, HE, SA, VG], [('black76_price', BL), ('garman_kohlhagen_price', GK), ('heston_price_vanilla_european', HE), ('sabr vol', SA)])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'too long:', BAD)
