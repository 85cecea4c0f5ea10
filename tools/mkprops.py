"""Writes /verif/properties.jsonl from the table below (keeps the JSON lines readable and valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

KF = ["src/include/kfilter.hpp", "src/kfilter.cpp"]
CP = ["src/include/carpack.hpp", "src/carpack.cpp"]
PY = ["src/carmcmc/carma_pack.py"]

prop("C01", "Kalman filter outputs are the exact one-step Gaussian conditionals",
 "After filtering a zero-mean series, the i-th reported mean and variance equal the mean and variance of observation i (measurement noise included) conditional on observations 1..i-1 under the CAR(1) or CARMA(p,q) Gaussian process with the given driving variance, AR roots and MA coefficients and independent measurement errors. This holds for every irregular time grid, heteroscedastic or zero errors, real, complex and mixed roots, and any MA order below p, to the accuracy the conditioning of the problem allows. All reported variances are positive.",
 ["inputs", "configurations"], "all time grids, series, error bars, driving variances, root sets and MA polynomials within the documented domain",
 "Unit tests compare a handful of fixed data sets with a second copy of the same recursion; they never compare with the dense joint Gaussian, never vary root type x MA order x error pattern together, and never check every index.",
 KF, [("CAR(1) recursion", "src/kfilter.cpp KalmanFilter1::Reset/Update"), ("CARMA recursion in the rotated state space", "src/kfilter.cpp KalmanFilterp::Reset/Update")],
 observe=["KalmanFilter1/KalmanFilterp .Filter(), .GetMean(), .GetVar()"])

prop("C02", "Log-density is the exact Gaussian log-likelihood plus the stated log-prior",
 "For any parameter vector inside the prior support, the log-density of a CAR(1), CAR(p), CARMA(p,q) or z-transformed model equals the exact Gaussian log-likelihood of the data (up to the fixed -n/2 log 2pi constant) for the process that vector encodes - standard deviation, error-scale, mean, log quadratic AR factors, log quadratic MA factors or kappa - plus the reported log-prior. The log-prior is the scaled-inverse-chi-square(50) density of the error scale, plus the logistic density of the kappa coordinate where there is one.",
 ["inputs", "configurations"], "all data sets and all parameter vectors of all model classes and orders",
 "Tests evaluate the density at a few vectors of a few models and mostly compare it with the code's own filter output, so a consistent error in decoding parameters, normalising the variance or scaling the errors is invisible.",
 CP + KF, [("density assembly", "src/include/carpack.hpp CARMA_Base::LogDensity/LogPrior"), ("parameter decoding", "src/carpack.cpp ARRoots, ExtractMA, Variance; carpack.hpp ExtractSigsqr")],
 observe=["getLogDensity(), getLogPrior()", "LogDensity() of the C++ classes"])

prop("C03", "Prior support is enforced exactly: minus infinity outside, finite inside",
 "The log-density is minus infinity if and only if the parameter vector violates a documented prior bound: process standard deviation outside [0, maximum], error scale outside [0.5, 2], a characteristic frequency above 1/min(dt) or a width below 1/(time span), AR roots that coincide, or Lorentzian centroids not in decreasing order. Asking for maximum-likelihood mode lifts exactly these bounds and changes nothing else, and can be switched back.",
 ["inputs", "configurations"], "all parameter vectors, in particular each single bound crossed alone from either side, for all orders and data sets",
 "Tests check a couple of violated bounds for one model order; each bound must hold independently, at every position of the vector, on both sides.",
 CP, [("bounds", "src/carpack.cpp CAR1::CheckPriorBounds, CARp::CheckPriorBounds, unique_roots"), ("bound values", "src/include/carpack.hpp CARMA_Base::SetPrior")],
 observe=["getLogDensity()", "SetMLE()"])

prop("C04", "Prediction at any time is the exact conditional mean and variance",
 "Predicting the series at a time before, between, at or after the observations returns the mean and variance of the noise-free process at that time conditional on all observations. The variance is never larger than the stationary variance, and tends to the stationary variance far from the data.",
 ["inputs", "configurations"], "all data sets, models and prediction times, including backcasts, observation times and far extrapolation",
 "Tests check one interpolation, one forecast and one backcast of fixed series for two models; position relative to the data, gap sizes, errors and roots vary jointly.",
 KF, [("interpolation/backcast recursions", "src/kfilter.cpp Predict, InitializeCoefs, UpdateCoefs")],
 observe=["KalmanFilter1/KalmanFilterp .Predict()", "CarmaSample.predict()"])

prop("C05", "Conditional simulation draws from the exact joint conditional distribution",
 "Simulated values at any set of times are a draw from the joint Gaussian distribution of the process at those times conditional on all observations: right means, variances and cross-correlations, between simulated points too. The returned values correspond one to one to the requested times in the order they were requested, and simulating leaves the filter's data untouched.",
 ["inputs", "histories"], "all data sets, models, and requested time sets (unsorted, interleaved with, before and after the data), and repeated calls",
 "Tests draw a few simulations for one model and look at a single marginal variance; joint correlation, ordering and state restoration are never observed.",
 KF, [("sequential simulation with insertion", "src/include/kfilter.hpp KalmanFilter::Simulate")],
 observe=["KalmanFilter1/KalmanFilterp .Simulate()", "CarmaSample.simulate()"])

prop("C06", "Results do not depend on data order or on repeated observation times",
 "Giving the observations in any order produces the same filter outputs, predictions, likelihoods and models as giving them sorted by time, with each value and error staying attached to its own time. Observations that repeat an already present time are dropped so that one observation per distinct time remains and the result equals the one for the de-duplicated data.",
 ["inputs"], "all permutations and duplication patterns of all data sets, through the filters and the model front end",
 "Tests use sorted, distinct times or one shuffled example; misaligning errors with values or dropping the wrong row needs particular permutations and duplicate positions to show.",
 KF + PY, [("sort and unique in the filter", "src/include/kfilter.hpp KalmanFilter::init"), ("sort and unique in the front end", "src/carmcmc/carma_pack.py CarmaModel.__init__")],
 observe=["KalmanFilter1/p outputs", "CarmaModel.time/.y/.ysig and its sampler's density"])

prop("C07", "Every recorded MCMC draw is counted, in the prior, and carries its own density",
 "A sampler run returns exactly the requested number of draws, each of the right length and inside the prior support, and the log-posterior stored with draw i is the log-density of draw i. Exactly burn-in iterations run before recording and exactly one recorded draw is kept per thinning interval, for every burn-in, thinning, number of temperatures, model order and starting vector.",
 ["configurations", "histories", "inputs"], "all sampler settings, data sets and random histories of the chain",
 "Tests look at the first recorded draw of one short run per model; a stale or swapped density, a skipped or doubled iteration, or an off-by-one in recording shows only over whole histories and other settings.",
 ["src/samplers.cpp", "src/carmcmc.cpp", "src/include/parameters.hpp", "src/include/samplers.hpp"],
 [("recording loop", "src/samplers.cpp Sampler::Run/Iterate/SaveValues"), ("sample storage", "src/include/parameters.hpp Parameter::AddToSample/Save")],
 state=[("stored draws and log-posteriors", "what the user gets back", "src/include/parameters.hpp samples_, logposts_")],
 observe=["getSamples(), GetLogLikes(), getLogDensity() of the returned object", "DoStep calls of the steps"])

prop("C08", "Metropolis updates accept with the tempered Metropolis-Hastings probability",
 "Each Metropolis update proposes from its kernel around the current value, accepts with probability min(1, exp of the log-density difference divided by the chain's temperature, plus the log ratio of backward to forward proposal densities), and otherwise leaves value and stored density unchanged; proposals with a non-finite density are never accepted. After acceptance the stored value and density are those of the proposal. As a consequence every supplied kernel (normal, Student t, multivariate normal, log-normal, stretch) leaves the target distribution invariant.",
 ["histories", "inputs", "configurations"], "all targets, temperatures, kernels, and histories of accepted and rejected moves",
 "Tests run one Gaussian target and check a moment loosely; a wrong temperature, missing proposal ratio or stale stored density distorts the target only slightly and only in some configurations.",
 ["src/steps.cpp", "src/include/steps.hpp", "src/include/proposals.hpp", "src/proposals.cpp"],
 [("acceptance rules", "src/steps.cpp AdaptiveMetro::Accept; src/include/steps.hpp MetropStep::Accept"), ("proposal kernels", "src/proposals.cpp Draw; proposals.hpp LogDensity")],
 observe=["value and density of a parameter before and after each DoStep, proposals seen by its LogDensity"])

prop("C09", "Adaptive proposal covariance follows the RAM recursion and freezes after burn-in",
 "During the adaptation phase each update changes the proposal covariance by exactly the Robust Adaptive Metropolis rank-one correction computed from that step's unit proposal, acceptance probability, target rate and decaying step size, so the covariance stays symmetric positive definite whatever the target does. After the given number of iterations the covariance never changes again. With a long adaptation the acceptance rate approaches the target rate.",
 ["histories", "inputs", "configurations"], "all targets (including ones that return infinities), dimensions, target rates and adaptation lengths",
 "Tests check the final covariance of one run loosely; the recursion, its step size, the freeze and robustness against rejected or infinite densities are statements about every step of every history.",
 ["src/steps.cpp", "src/include/steps.hpp"], [("covariance update", "src/steps.cpp AdaptiveMetro::DoStep, CholUpdateR1")],
 state=[("Cholesky factor", "square root of the proposal covariance", "src/include/steps.hpp AdaptiveMetro::chol_factor_")],
 observe=["GetCovariance() before and after each DoStep", "GetAcceptRate()"])

prop("C10", "Tempering: recorded chain runs at temperature one, exchanges conserve states",
 "Whatever the number of temperatures (one included), the draws returned to the user come from the chain at temperature exactly one, the other chains run at increasing temperatures, and only neighbouring chains exchange. An exchange happens with probability min(1, exp((1/T_i - 1/T_j)(L_j - L_i))) and swaps values together with their own log-posteriors, so the collection of (value, log-posterior) pairs over the chains is conserved.",
 ["histories", "configurations"], "all numbers of temperatures, model orders and random histories",
 "Tests never look at the non-recorded chains, run no single-temperature sampler, and check no exchange probability; a wrong temperature still yields plausible looking draws.",
 ["src/carmcmc.cpp", "src/include/steps.hpp"], [("ladder and step schedule", "src/carmcmc.cpp RunCarmaSampler"), ("exchange", "src/include/steps.hpp ExchangeStep::DoStep")],
 observe=["temperature of the returned object", "values and densities of the ensemble around each exchange", "posterior statistics of the recorded draws"])

prop("C11", "Every chain starts from a usable point and honours a valid user start",
 "Starting values drawn by any model are inside the prior support with finite log-density for every data set with a non-empty prior, so a chain can always move. A user-supplied starting vector of the right length with finite density is the state the recorded chain starts from; a vector of wrong length or with non-finite density is replaced by a drawn one, never used and never an error.",
 ["inputs", "histories", "configurations"], "all data sets (short, irregular, with gaps, any scale), model orders, and user starting vectors",
 "Tests start from the prior on one benign data set; a start outside the support needs short or irregular data and freezes the chain for ever, which no test would notice.",
 CP + ["src/samplers.cpp"], [("start from prior", "src/carpack.cpp StartingValue/StartingAR/StartingMA/StartingKappa"), ("user start", "src/carpack.cpp SetStartingValue; src/samplers.cpp Sampler::Run")],
 observe=["StartingValue()/SetStartingValue() of the models", "run_mcmc_car1/run_mcmc_carma with zero burn-in, GetLogLikes()"])

prop("C12", "Random variate generators have exactly the documented distributions",
 "Each random generator method returns variates of its documented distribution for all valid parameters, with no dependence on which other distributions or parameters were drawn in between. Setting a seed makes the stream reproducible, and saving the generator state to a file and recovering it resumes the identical stream.",
 ["inputs", "histories"], "all distributions, all valid parameter values, interleavings of calls, and save/recover points",
 "Tests compare a mean and a variance for one parameter setting of some distributions; wrong shape, tails, parametrisation, or state left in shared distribution objects is not seen.",
 ["src/random.cpp", "src/include/random.hpp"], [("variates", "src/random.cpp RandomGenerator::*"), ("seed handling", "src/random.cpp SetSeed/SaveSeed/RecoverSeed")],
 observe=["return values of the generator methods"])

prop("C13", "Derived posterior samples are the exact transforms of the sampled vectors",
 "For every posterior sample, the reported variance, error scale, mean, quadratic coefficients, AR roots, AR coefficients, Lorentzian centroids and widths, MA coefficients, driving-noise amplitude and log-likelihood describe the same process as the sampled parameter vector: the roots are those of the reported AR polynomial, the driving noise reproduces the reported variance, and the log-likelihood is the Gaussian log-likelihood of the data at that vector. This also holds for the dictionary made from a maximum-likelihood estimate.",
 ["inputs", "configurations"], "all orders p,q (odd and even, real and complex roots), all sampled vectors and MLE results",
 "Tests check shapes and never recompute a derived quantity; odd/even orders and real/complex quadratic factors take different branches, and the MLE dictionary is not exercised at all.",
 PY, [("transforms", "src/carmcmc/carma_pack.py CarmaSample._ar_roots/_ma_coefs/_ar_coefs/_sigma_noise, Car1Sample, add_mle")],
 observe=["CarmaSample/Car1Sample.get_samples(name)", "CarmaSample.mle"])

prop("C14", "Power spectra are those of the model, with correct credibility bands",
 "The power spectrum function returns sigma^2 |MA(2 pi i f)|^2/|AR(2 pi i f)|^2, so integrating it over all frequencies gives the process variance. The posterior spectrum reported for a sample set gives, at every frequency of a logarithmic grid from one over the time span to half of one over the smallest time step, the median and the requested percentile band of the spectra of the (possibly sub-sampled) posterior samples, for CAR(1) and CARMA alike.",
 ["inputs", "configurations"], "all models, posterior sample sets, percentiles, sub-sample sizes and frequencies",
 "Tests only call the plotting function; no returned number is compared with anything, and the sub-sampling option is not called.",
 PY, [("spectrum", "src/carmcmc/carma_pack.py power_spectrum"), ("bands", "src/carmcmc/carma_pack.py CarmaSample.plot_power_spectrum, Car1Sample.plot_power_spectrum")],
 observe=["return values of power_spectrum and plot_power_spectrum"])

prop("C15", "Simulated CARMA processes have the model's joint distribution",
 "Generating a CARMA or CAR(1) process at given times returns one value per time that jointly follow the stationary Gaussian distribution with the model's autocovariance at all lags, for any increasing times whether given as floats or integers. The caller's inputs are not modified.",
 ["inputs", "configurations"], "all time grids, root sets, MA coefficients and driving variances",
 "The generator is only used as a data source in tests; its output distribution is never checked, nor other orders or input types.",
 PY, [("process generation", "src/carmcmc/carma_pack.py carma_process, car1_process")],
 observe=["return value of carma_process/car1_process"])

prop("C16", "Autocovariance function matches the spectrum and the state space at every lag",
 "The analytic variance and autocovariance computed for AR roots, MA coefficients, driving variance and lag equal the autocovariance of the stationary CARMA process: real, even in the lag, positive at lag zero, bounded by the lag-zero value, linear in the driving variance, and equal to the Fourier transform of the model's power spectrum. The Python and C++ implementations agree.",
 ["inputs", "configurations"], "all root sets (real, complex, mixed), MA orders below p, lags and driving variances",
 "Tests check lag zero for one or two models; sign errors at non-zero lag or in higher MA terms survive.",
 PY + CP, [("analytic sum over roots", "src/carmcmc/carma_pack.py carma_variance; src/carpack.cpp CARp::Variance"), ("Lorentzian to roots", "src/carmcmc/carma_pack.py get_ar_roots")],
 observe=["carma_variance(), get_ar_roots()", "CARp::Variance()"])

prop("C17", "Maximum-likelihood search returns the best of its trials, within its bounds",
 "The maximum-likelihood search runs the requested number of optimisations from random starts and returns the result with the highest objective among them whatever the number of worker processes, with parameters inside the documented bounds and an objective equal to minus the model's log-density at the returned parameters. Trials that failed numerically never win over ones that succeeded.",
 ["inputs", "configurations", "fault_sequences"], "all data sets, orders, numbers of trials and workers, and outcomes of the individual trials (including NaN)",
 "No test calls the maximum-likelihood code.",
 PY, [("trials and selection", "src/carmcmc/carma_pack.py CarmaModel.get_mle, _get_mle_single, _carma_loglik")],
 observe=["return value of get_mle, results of the individual optimiser calls"])

prop("C18", "Order selection minimises AICc over exactly the requested grid",
 "Choosing the order evaluates exactly the requested (p,q) pairs - all q < p up to the given maxima, or the given list - and reports for each the corrected Akaike criterion of its best fit with p+q+2 parameters. The returned fit and the order set on the model are those of the pair with the smallest criterion.",
 ["inputs", "configurations"], "all maxima, explicit lists, data sizes and sets of fit outcomes",
 "No test calls the order selection code.",
 PY, [("grid and criterion", "src/carmcmc/carma_pack.py CarmaModel.choose_order")],
 observe=["return value of choose_order, model.p and model.q"])

prop("C19", "No memory error, undefined behaviour, leak or crash for any call sequence",
 "No sequence of calls of the Python interface or the C++ classes - filters, models, samplers, simulations, with any sizes, orders and values, including empty results and invalid arguments - reads or writes outside its objects, uses freed or uninitialised memory, has undefined behaviour, leaks its objects, or terminates the process. Invalid arguments are reported as exceptions or as non-finite values.",
 ["inputs", "histories", "configurations", "fault_sequences"], "all call sequences over all API objects with valid and invalid arguments",
 "The tests run uninstrumented builds on valid input; an overrun or bad deallocation usually gives the same numbers.",
 ["src/include/steps.hpp", "src/include/parameters.hpp", "src/include/carpack.hpp", "src/include/kfilter.hpp", "src/samplers.cpp", "src/boost_python_wrapper.cpp"],
 [("ownership through base pointers", "src/include/parameters.hpp Ensemble; src/include/samplers.hpp Sampler::steps_"), ("sample access", "src/include/carpack.hpp getSamples"), ("sized linear algebra", "src/kfilter.cpp")],
 observe=["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions, memcheck reports; process exit"])

prop("C20", "Queries are repeatable and objects do not influence each other",
 "Evaluating densities, filtering, predicting, simulating or reading samples never changes the answer of a later density, filter, prediction or sample query, in any order and any number of repetitions, and never modifies the caller's arrays. Distinct models, filters and sample objects do not influence each other, also when they were made from the same data or copied from one another.",
 ["histories"], "all interleavings of queries on one object and on several objects",
 "Tests query each object once in a fixed order; the objects share a mutable filter workspace whose leftovers matter only in other orders.",
 CP + KF + PY, [("recompute from data", "src/include/carpack.hpp LogDensity resets all filter inputs"), ("restore after simulation", "src/include/kfilter.hpp Simulate"), ("copies on access", "src/carmcmc/samplers.py get_samples; carpack.hpp getSamples")],
 observe=["repeated answers of getLogDensity, Filter/GetMean/GetVar, Predict, getSamples, get_samples"])

prop("C21", "Shifting or rescaling time and flux changes results only as the model demands",
 "Shifting all times changes nothing; shifting the series and its mean together changes no density and shifts predictions by the same amount. Scaling the series, its errors and the amplitude by c scales predictions by c and variances by c^2 and changes the log-density by exactly -n log c; scaling time with the matching change of rates leaves filter output and density unchanged.",
 ["inputs"], "all data sets, models, shifts and scale factors over many orders of magnitude",
 "Tests use one scale; an absolute tolerance, unit-dependent constant or cancellation in the code breaks the invariance only on other scales.",
 CP + KF, [("scale-free formulas", "src/kfilter.cpp, src/carpack.cpp"), ("prior bounds in data units", "src/include/carpack.hpp SetPrior")],
 observe=["getLogDensity, filter outputs, predictions on transformed data"])

prop("C22", "Parameter vectors always decode to a stable, real process",
 "Every finite parameter vector decodes to AR roots with negative real part that come in conjugate pairs (or are real), with the product of the quadratic factors equal to the AR polynomial, and to real MA coefficients with unit constant term whose roots also lie in the left half plane. The decoded driving variance is positive and gives the process exactly the standard deviation in the vector.",
 ["inputs", "configurations"], "all parameter vectors (wide range of magnitudes, near-equal roots) and all orders including odd ones and q = p-1",
 "Tests check a few vectors for p=5 or 9; the discriminant sign per factor and the odd factor give many branches.",
 CP, [("decoding", "src/carpack.cpp ARRoots, ExtractMA, polycoefs, Variance")],
 observe=["ExtractAR/ExtractMA/ExtractSigsqr", "density and derived samples"])

prop("C23", "Posterior summaries, fit diagnostics and accessors report what they claim",
 "Sample accessors return copies of the stored draws, and summaries print the median, standard deviation and the 68, 95 and 99 per cent intervals of the draws of the named parameter. Predictions and simulations from a posterior use the requested point estimate (best posterior draw, median, mean or a random draw) with the mean added back, diagnostics show the standardized one-step residuals of that estimate, and the deviance information criterion is the mean deviance plus half its variance.",
 ["inputs", "configurations"], "all sample sets, parameters and point-estimate choices for CAR(1) and CARMA samples",
 "Tests call the summaries and plots without looking at any number.",
 PY + ["src/carmcmc/samplers.py"], [("accessors and summaries", "src/carmcmc/samplers.py MCMCSample"), ("point estimates", "src/carmcmc/carma_pack.py makeKalmanFilter, predict, simulate, assess_fit, DIC")],
 observe=["return values, printed summaries, plotted data"])

prop("C24", "Sampler output converges to the posterior distribution",
 "Long sampler runs, for CAR(1) and for CAR(p)/CARMA with any number of temperatures, produce draws whose distribution is the posterior defined by the model's log-density restricted to its prior support, whatever the burn-in, thinning and start. In particular posterior means, variances and quantiles agree with independent numerical integration of that density within Monte Carlo error.",
 ["histories", "configurations", "inputs"], "all data sets, orders, sampler settings and seeds",
 "Tests only check that parameters land within wide intervals of the truth on one data set; a biased kernel or wrong temperature passes.",
 ["src/carmcmc.cpp", "src/steps.cpp", "src/samplers.cpp", "src/carpack.cpp"],
 [("sampler assembly", "src/carmcmc.cpp RunCar1Sampler, RunCarmaSampler"), ("updates", "src/steps.cpp; src/include/steps.hpp")],
 observe=["getSamples() of finished runs compared with quadrature/independent sampling of getLogDensity()"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
