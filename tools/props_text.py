from props import prop, na, FIT  # noqa: F401

WHY_OF = ("The tests run the optimum filter on one or two simulated traces "
          "with one template, one PSD and a few window settings; ")
OF = FIT + ": class OptimumFilter"

prop("C01", "No-delay optimum filter returns the exact least-squares fit",
     "For any trace, template, noise PSD, sample rate and coupling, the "
     "fixed-time optimum filter returns the chi-square that the returned "
     "amplitude really has at the requested delay (weighted residual over "
     "all frequencies, DC bin dropped for AC coupling). No other amplitude "
     "at that delay gives a smaller chi-square, and the inputs are left "
     "unmodified.",
     "every trace/template/PSD of every length >= 2, both couplings, every "
     "requested delay",
     WHY_OF + "an error that needs DC coupling, odd lengths or a non-zero "
     "window centre is not sampled.", [FIT],
     [("OptimumFilter.ofamp_nodelay", OF), ("OptimumFilter.__init__", OF)])
prop("C02", "Delayed optimum filter finds the global best allowed delay",
     "The free-delay optimum filter returns an allowed delay on the sample "
     "grid, the amplitude fitted there and the chi-square which that "
     "amplitude and delay really have; no delay that the window, the window "
     "centre and the pulse-direction constraint allow has a smaller "
     "chi-square. If nothing is allowed it returns amplitude 0, time 0 and "
     "the chi-square of no pulse.",
     "every trace/template/PSD/length, every window length, inside/outside, "
     "window centre, polarity and coupling",
     WHY_OF + "optimality over all delays and emptied windows are not "
     "checked at all.", [FIT],
     [("OptimumFilter.ofamp_withdelay", OF),
      ("_argmin_chi2", FIT), ("_get_pulse_direction_constraint_mask", FIT)])
prop("C03", "Constrained delay search is exact and refuses bad windows",
     "The constrained minimisation over delays returns an index that is in "
     "range and allowed by the window and the mask, with no allowed index "
     "having a smaller value; each row of a stack is minimised on its own. "
     "It reports 'nothing allowed' exactly when that is the case, and "
     "refuses non-positive windows, window centres outside the trace and "
     "unknown polarities.",
     "every chi-square array and mask, every window length, centre and mode",
     "Tests use windows well inside the trace; wrap-around, clipping at "
     "either edge, odd/even lengths and empty windows are not enumerated.",
     [FIT], [("_argmin_chi2", FIT)])
prop("C04", "Sub-sample time interpolation is the exact local parabola",
     "With interpolation requested, time, chi-square and amplitude lie on "
     "the parabolas through the best bin and its two (circular) neighbours, "
     "and the time is the extremum of the chi-square parabola. At a minimum "
     "the time moves by at most half a sample and chi-square does not "
     "increase.",
     "every trace and every best bin including the first and the last one, "
     "for the free-delay, the iterative pileup and the baseline fit",
     "No test has its best bin at the edge of the trace, where the "
     "neighbours wrap around.", [FIT],
     [("OptimumFilter._interpolate_of", OF),
      ("OptimumFilter._interpolate_parabola", OF)])
prop("C05", "Functional optimum filter agrees with the class, trace by trace",
     "The functional optimum filter gives for every trace of a stack (or a "
     "single trace) the amplitude, time and chi-square that the "
     "optimum-filter object gives for the same arguments, one result per "
     "trace and independent of the other traces. The resolution it can "
     "return is the curvature of the chi-square.",
     "every stack of traces, template, PSD, window, coupling, with and "
     "without delay",
     "Tests compare one trace with stored numbers; stacks are not "
     "compared row by row.", [FIT], [("ofamp", FIT)])
prop("C06", "Fit results do not depend on the history of the object",
     "A fit on an optimum-filter object returns what a freshly built object "
     "would return for the current trace, whatever fits, figures of merit "
     "and trace updates were done before, in any order and with any "
     "options.",
     "every sequence of calls of the nine public fits/figures of merit and "
     "trace updates with arbitrary arguments",
     "Tests call each method once or twice on one object in a fixed order; "
     "stale cached arrays show only in particular orders.", [FIT],
     [("cached arrays of OptimumFilter", OF),
      ("OptimumFilter.update_signal", OF)], over=("histories", "inputs"))
prop("C07", "Iterative pileup fit is the best second pulse for a fixed first",
     "Given the amplitude and time of a first pulse (any real time), the "
     "pileup fit returns the allowed second pulse that minimises the "
     "chi-square of the two-pulse model, and the chi-square it reports is "
     "the one of that model. With nothing allowed it returns a zero second "
     "pulse and the chi-square of the first pulse alone; the functional form "
     "obeys the same rule.",
     "every trace/template/PSD/length, first pulse at any (off-grid) time, "
     "every window, polarity and coupling",
     "Tests use one trace whose first pulse lies on the sample grid.",
     [FIT], [("OptimumFilter.ofamp_pileup_iterative", OF),
             ("ofamp_pileup", FIT)])
prop("C08", "Stationary pileup fit solves the two-pulse least squares exactly",
     "With the first pulse fixed at time zero, both amplitudes returned by "
     "the stationary pileup fit satisfy the normal equations of the "
     "two-pulse least-squares problem at the returned delay. The chi-square "
     "is the one of that model and the delay is an allowed one.",
     "every trace/template/PSD/length, window, coupling; including a second "
     "pulse at zero delay",
     "Tests check one trace at one non-zero delay.", [FIT],
     [("OptimumFilter.ofamp_pileup_stationary", OF),
      ("ofamp_pileup_stationary", FIT)])
prop("C09", "Baseline fit is the joint optimum of amplitude, delay, baseline",
     "The fit with a floating baseline uses the baseline of the global joint "
     "optimum of amplitude, baseline and delay (DC bin included, for both "
     "couplings); the delay and amplitude returned are the best allowed ones "
     "for that baseline and the chi-square is the residual of that model. "
     "With nothing allowed it returns zero amplitude and the chi-square of "
     "the baseline alone.",
     "every trace/template/PSD/length, window, polarity and coupling",
     "Tests compare one trace with stored numbers.", [FIT],
     [("OptimumFilter.ofamp_baseline", OF)])
prop("C10", "Figures of merit follow from the same chi-square",
     "No-pulse chi-square, low-frequency chi-square (both signs of "
     "frequency, cutoff inclusive), energy resolution and time resolution "
     "equal their definitions in terms of trace, template and PSD, for the "
     "class and the functions alike. A stack of traces gives for each trace "
     "what that trace gives alone.",
     "every trace/template/PSD/length, amplitude, time, cutoff, coupling",
     "Tests evaluate each once on one trace.", [FIT],
     [("OptimumFilter.chi2_lowfreq", OF), ("chi2lowfreq", FIT),
      ("chi2_nopulse", FIT), ("OptimumFilter.time_resolution", OF),
      ("OptimumFilter.energy_resolution", OF)])
prop("C11", "Optimum filter is linear and recovers noiseless pulses exactly",
     "A trace that is a scaled, circularly shifted template (plus any offset "
     "when AC coupled) is recovered with its exact amplitude and zero "
     "chi-square at its delay, and the free search does at least as well. "
     "Amplitudes are linear in the trace, chi-square is quadratic in its "
     "scale, scaling the PSD rescales only chi-square, and integral "
     "normalisation returns the pulse integral.",
     "every trace, template, PSD, length, delay, scale factors, coupling",
     "Tests check stored numbers, not these algebraic laws.", [FIT],
     [("OptimumFilter.__init__", OF), ("OptimumFilter.ofamp_nodelay", OF)])

SIM = "qetpy/sim/_sim.py"
BASE = "qetpy/core/didv/_base_didv.py"
DIDVF = "qetpy/core/didv/_didv.py"
PRI = "qetpy/core/didv/_didv_priors.py"

prop("S01", "Simulated TES admittances solve the small-signal equations",
     "The power-to-current and voltage-to-current transfer functions of the "
     "TES noise simulation solve the linearised electrical and thermal "
     "equations of the TES at every frequency; in the normal and "
     "superconducting state the voltage transfer function is that of the "
     "plain L-R circuit. It makes no difference whether the frequencies are "
     "stored in the object or handed to the method.",
     "every set of small-signal parameters, every frequency array",
     "The tests only check that a plot can be drawn for one parameter set.",
     [SIM], [("TESnoise.dIdV", SIM), ("TESnoise.dIdP", SIM)])
prop("S02", "Simulated noise components follow their formulas and add up",
     "Every noise component of the TES simulation (load, TES, thermal "
     "fluctuation, SQUID; transition, normal and superconducting state; "
     "current and power referred) has the value of its formula at every "
     "frequency, for both thermal-fluctuation link models. The totals are "
     "the sums of the components and the power-referred noise times |dI/dP| "
     "squared is the current-referred one.",
     "every set of TES parameters, exponents, SQUID models, frequencies",
     "No test compares a noise component with its formula or checks sums.",
     [SIM], [("TESnoise.s_itot", SIM), ("TESnoise.s_ptot", SIM),
             ("TESnoise.s_ptfn", SIM)])
prop("S03", "Noise simulation built from a dI/dV fit reproduces that fit",
     "A noise simulation made from a dI/dV fit has the fitted complex "
     "admittance as transfer function at every frequency and uses the total "
     "load resistance and the given temperatures in its noise, for "
     "transition, normal and superconducting noise and for the result "
     "layouts of both fitting classes. Missing normal resistances and "
     "unknown noise types are refused.",
     "every fit result, noise type, optional parameter, frequency",
     "The tests never build a simulation from a fit.", [SIM],
     [("loadfromdidv", SIM)], over=("inputs", "configurations"))
prop("S04", "Estimated energy resolution is the optimal-filter integral",
     "The energy resolution estimated from a power noise spectrum and a "
     "collection time satisfies sigma^2 times the (trapezoidal) frequency "
     "integral of 4 eff^2 / (1 + (w tau)^2) / S_p = 1, in eV, and is "
     "positive.",
     "every frequency grid, noise spectrum, collection time and efficiency",
     "The function is not tested.", [SIM], [("energy_res_estimate", SIM)])
prop("D01", "dI/dV fit parameters and TES parameters convert both ways",
     "Converting fit parameters of the 1-, 2- or 3-pole model to TES "
     "small-signal parameters and back (in either order) gives back the "
     "same numbers, keeps the resistances that were put in, and describes "
     "the same complex impedance at every frequency.",
     "every parameter set with loop gain != 1, either sign of B, 1-3 poles",
     "Tests fit one simulated device and compare the outcome.", [BASE],
     [("_BaseDIDV._converttotesvalues", BASE),
      ("_BaseDIDV._convertfromtesvalues", BASE)])
prop("D02", "Complex impedance solves the TES circuit equations",
     "The complex impedance of given small-signal parameters is the solution "
     "of the linearised electrothermal circuit (1 to 3 poles) at every "
     "frequency, the admittance is its reciprocal, and decoupled or gainless "
     "bodies reduce to the smaller model. Incomplete parameter sets are "
     "refused.",
     "every parameter set, scalar or array of frequencies",
     "Tests do not compare the impedance with the circuit equations.",
     [BASE], [("compleximpedance", BASE), ("complexadmittance", BASE)])
prop("D03", "Square-wave response and its deconvolution invert each other",
     "The time-domain response to a square-wave jitter has, at every "
     "harmonic of the drive below Nyquist, the Fourier coefficient of the "
     "drive times the TES admittance, and deconvolving it returns exactly "
     "that admittance, for any duty cycle. Frequency bins which the drive "
     "does not excite are marked as such.",
     "every TES, drive frequency and amplitude, duty cycle, number of "
     "periods and samples per period (up to 10^6 periods)",
     "Tests deconvolve one 50 % duty trace and look at the fit result.",
     [BASE], [("squarewaveresponse", BASE),
              ("_BaseDIDV._deconvolvedidv", BASE)],
     note="Callee contract: the admittance is any function with "
          "Y(-f) = conj Y(f), for the impedance parameters proved in D02.")
prop("D04", "Fall times are the poles of the fitted admittance",
     "The fall times computed from dI/dV fit parameters are exactly the "
     "poles of the fitted admittance (one per pole of the model), sorted "
     "from short to long.",
     "every 1-, 2- and 3-pole parameter set, either sign of the loop gain",
     "Tests never evaluate the admittance at the returned fall times.",
     [BASE], [("_BaseDIDV._findpolefalltimes", BASE)],
     note="scipy.optimize.fsolve is trusted to return a root.")
prop("D05", "dI/dV fits see the right data and label results correctly",
     "The fit is given exactly the admittance, errors and frequencies below "
     "the cut-off and physically consistent starting values; parameters, "
     "errors, covariance, fall times and small-signal parameters are stored "
     "under the name of the quantity they describe, and didv(0) is the "
     "fitted admittance at zero frequency. A fit with one model leaves the "
     "results of the other models alone.",
     "every data set, cut-off, 1-3 poles, any fit outcome",
     "Tests look at a few numbers of one data set.", [BASE, DIDVF],
     [("DIDV.dofit", DIDVF), ("DIDV._fitresult", DIDVF),
      ("_BaseDIDV._guessdidvparams", BASE)],
     over=("inputs", "configurations"))
prop("D06", "dI/dV fit minimises the weighted residual over all regions",
     "The function minimised by the dI/dV fit is the error-weighted squared "
     "distance between the data and the pole model with time offset; the "
     "starting points satisfy the bounds, both signs of the loop gain are "
     "tried unless one is requested, and the better of the two is returned "
     "with its covariance.",
     "every data set, errors, starting values, 1-3 poles",
     "Tests run one well-behaved fit.", [DIDVF],
     [("DIDV._fitdidv", DIDVF)], over=("inputs", "configurations"),
     note="scipy.optimize.least_squares by contract (start inside bounds "
          "required; convergence assumed, not proved).")
prop("D07", "dI/dV trace averaging keeps whole periods and right errors",
     "Processing dI/dV traces keeps exactly the whole signal periods of "
     "each trace; the mean trace, mean admittance, offset and their standard "
     "errors are those of the individual traces, and the time axis carries "
     "the requested offset (half a period more for a 180-degree phase). The "
     "flat points lie in the flat part of the periods and inside the trace.",
     "every number of traces, periods, samples, gain, offset and phase",
     "Tests use one set of simulated traces of round lengths.", [BASE],
     [("_BaseDIDV.processtraces", BASE)])
prop("D08", "A dI/dV object from averaged data equals one made from traces",
     "An object made from the averages of processed traces has the same "
     "time axis, frequencies, flat points, averages, errors and offsets as "
     "the object which processed the traces.",
     "every set of traces, offset and phase",
     "Tests only check that a fit on such an object runs.", [BASE, DIDVF],
     [("didvinitfromdata", DIDVF), ("_BaseDIDV.processtraces", BASE)],
     over=("inputs", "histories"))
prop("D09", "dI/dV fit with priors maximises the right likelihood",
     "The fit with priors minimises half the weighted squared residual of "
     "the scaled admittance plus half the squared distance from the priors "
     "in units of their covariance, starting at the priors where given and "
     "at the unconstrained fit elsewhere. Results, errors and covariance are "
     "stored under the name of the quantity they describe.",
     "every data set, prior values and covariance, 1-3 poles",
     "Tests run one well-behaved fit.", [PRI],
     [("DIDVPriors._fitdidv", PRI), ("DIDVPriors.dofit", PRI),
      ("DIDVPriors._fitresult", PRI)], over=("inputs", "configurations"),
     note="iminuit.Minuit and numpy.linalg.pinv by contract (convergence "
          "assumed).")

# ---------------------------------------------------------------- noise
NOI = "qetpy/core/_noise.py"
prop("N01", "PSDs conserve power and the one-sided fold is exact",
     "The two-sided PSD is the mean squared Fourier transform over n fs, so "
     "its integral is the mean power of the traces. The one-sided PSD has "
     "n//2+1 bins at k fs/n, doubles every bin except DC and (even n) "
     "Nyquist, and folding a two-sided PSD loses or double-counts no power.",
     "every trace or stack of traces, every length (odd and even), every "
     "sample rate",
     "Tests use one even length.", [NOI],
     [("calc_psd", NOI), ("foldpsd", NOI)])
prop("N02", "Generated noise has exactly the requested spectrum",
     "Each noise trace made from a PSD is white Gaussian noise whose Fourier "
     "components are scaled by the square root of the PSD at that frequency "
     "(an infinite DC bin gives no DC noise), with the requested number of "
     "independent traces. The PSD given by the caller is left unmodified.",
     "every two-sided PSD, length, sample rate and number of traces",
     "Tests only look at shapes and the rough average of one PSD.", [NOI],
     [("gen_noise", NOI)],
     note="numpy's random numbers are any array (the contract speaks about "
          "every possible draw).")
prop("N03", "Noise object PSDs are the one-sided PSDs of its channels",
     "A noise object stores the traces in units of its gain, and its PSD is "
     "the one-sided PSD of each channel, split into a real and an imaginary "
     "part which add up to it. Inconsistent channel names and single traces "
     "are refused.",
     "every stack of 1-3 channels, length (odd and even), gain, sample rate",
     "Tests only check that the attributes exist.", [NOI],
     [("Noise.__init__", NOI), ("Noise.calculate_psd", NOI)])
prop("N04", "Slope removal takes away exactly the fitted slope",
     "Removing the slope subtracts from every trace of every channel its own "
     "least-squares straight line through the origin of time, so that no "
     "linear trend is left; nothing else is changed.",
     "every stack of 1-3 channels and every length",
     "Not tested.", [NOI], [("Noise.remove_trace_slope", NOI)])
prop("N05", "Cross spectra are the hermitian trace averages",
     "The cross spectral density of channels i and j is the mean over the "
     "traces of the cross spectrum of each trace, hermitian in the channels, "
     "and its real and imaginary parts and their spreads are those of the "
     "individual traces wherever they are positive. With one channel the "
     "calculation is refused.",
     "every stack of 2-3 channels, traces and lengths",
     "Tests only check that the attributes exist.", [NOI],
     [("Noise.calculate_csd", NOI)],
     note="scipy.signal.csd by contract: a hermitian sesquilinear function "
          "of the pair of traces; fill_negatives by its contract (U04).")
prop("N06", "Correlated and uncorrelated noise split the PSD exactly",
     "For two channels the uncorrelated noise of a channel is the noise that "
     "remains after the best linear prediction from the other channel, and "
     "correlated plus uncorrelated noise is the total. Correlation "
     "coefficients are those of the Fourier amplitudes over the traces.",
     "every hermitian positive definite spectrum and every frequency; "
     "correlation coefficients for 2-3 channels",
     "Tests only check that the attributes exist.", [NOI],
     [("Noise.calculate_uncorr_noise", NOI),
      ("Noise.calculate_corrcoeff", NOI)],
     note="The uncorrelated noise of three and more channels (a matrix "
          "inverse per frequency) is outside the contract.")
prop("N07", "Smoothed PSD is the symmetric completion of its one-sided part",
     "The smoothed two-sided PSD has as many bins as the one given, its "
     "non-negative frequencies are the decreasing envelope of the given "
     "ones, and the negative frequencies mirror them.",
     "every two-sided PSD, odd and even lengths",
     "Not tested.", [NOI], [("smooth_psd", NOI)],
     note="The envelope (make_decreasing) by contract.")

# ---------------------------------------------------------------- utilities
CUT = "qetpy/cut/_cut.py"
UTI = "qetpy/utils/_utils.py"
prop("U01", "Shifting an array moves every sample by the requested amount",
     "An integer shift moves every sample by that many bins, samples moved "
     "in from outside take the fill value and the length is kept; a shift by "
     "a fraction of a bin interpolates linearly between the neighbours. The "
     "array given is not modified.",
     "every array (integers too), every shift of any sign and size",
     "Tests shift one array by a few bins.", [UTI], [("shift", UTI)],
     note="scipy.ndimage.shift(order=1) by contract.")
prop("U02", "Pulse templates are normalised and start where requested",
     "A template is zero up to the centre of the trace plus the offset, then "
     "proportional to the difference of the two exponentials of the given "
     "rise and fall time, and its maximum is one.",
     "every length, sampling, offset inside the trace and rise < fall time",
     "Tests look at one template.", [UTI], [("make_template", UTI)],
     note="shift by its contract (U01).")
prop("U03", "Baseline offset and its error are those of the trace means",
     "The offset is the mean over the traces of the mean of each trace (for "
     "dI/dV data over exactly the whole periods contained in it) and its "
     "error the standard error of these means, for each channel.",
     "every stack of traces with or without channels, drive frequencies and "
     "lengths",
     "Tests use one stack.", [UTI], [("calc_offset", UTI)])
prop("U04", "Filling of non-positive values keeps all positive ones",
     "Positive entries are unchanged and all other entries are replaced by "
     "positive values interpolated between the positive ones.",
     "every array", "Not tested.", [UTI], [("fill_negatives", UTI)],
     note="numpy.interp by contract.")
prop("U05", "Slope is the least-squares slope",
     "The slope leaves residuals uncorrelated with x, and does not depend on "
     "the origin of x and y or on whether the means were removed before.",
     "every data set", "Tests use one line.", [UTI], [("slope", UTI)])
prop("U06", "Absorbed energy integrates the drop of the bias power",
     "The bias power is that of the voltage-biased circuit, and the absorbed "
     "energy is the time integral of its drop below the baseline (given, or "
     "the mean before and, if requested, after the pulse), for one trace, a "
     "stack or a stack with channels. Missing baseline or time scale is "
     "refused.",
     "every trace, bias point, baseline region and time axis",
     "Tests integrate one trace.", [UTI],
     [("energy_absorbed", UTI), ("powertrace_simple", UTI)])
prop("U07", "Offset from a muon trace satisfies the normal-state circuit",
     "The offset is the one for which the saturated current is the "
     "normal-state current of the circuit, and the quiescent current, "
     "resistance and power returned with it are those of the same circuit.",
     "every averaged muon trace and circuit",
     "Tests use one simulated muon.", [UTI], [("get_offset_from_muon", UTI)])
prop("U08", "Thermal conductance and its error follow the power law",
     "The conductance is the derivative of the power law through the given "
     "point, and its error is the first-order propagation of the given "
     "covariance (or of the error of the power).",
     "every power, pair of temperatures and covariance, n = 4, 5, 6",
     "Tests evaluate one point without covariance.", [UTI],
     [("estimate_g", UTI)])
prop("U09", "Resampling gives a whole number of samples per drive period",
     "The resampling factors are positive integers that make the new sample "
     "rate a whole multiple of the drive frequency, leave compatible rates "
     "alone, and the resampled data have the rate returned with them.",
     "integer sample rates up to 5000 (and common rates up to 1.25 MHz) and "
     "drive frequencies up to 500",
     "Tests use one pair of frequencies.", [UTI],
     [("resample_factors", UTI), ("resample_data", UTI)],
     note="Bounded check, not a proof: the prime factorisation by sympy is "
          "outside the verifier.")
prop("U10", "Trace alignment uses the lag of the best cross-correlation",
     "Alignment filters the first n_cut samples of the traces with the "
     "requested cut-off, and the shift of each trace is the lag at which its "
     "correlation with the first trace is largest (zero for the first).",
     "every stack of traces, lengths, cut-off frequency and sample rate",
     "Tests align copies of one pulse with default settings.", [UTI],
     [("align_traces", UTI), ("lowpassfilter", UTI)],
     note="butter/filtfilt are any filter, fftconvolve by its defining sum; "
          "the aligned copy itself is only checked at run time (bounded).")

prop("K01", "Iterative outlier cut is self-consistent",
     "The mean and standard deviation returned by iterstat are those of the "
     "values it keeps.  Unless nothing is cut, a value is kept exactly if it "
     "lies within cut standard deviations of that mean, to the requested "
     "precision.",
     "every sample, cut and precision; every number of iterations",
     "Tests run it on one sample.", [CUT], [("iterstat", CUT)],
     over="all lengths n >= 1 and all iterations of the loop (an arbitrary "
          "iteration from an arbitrary state); that the loop ends is not "
          "proved")
prop("K02", "Iterative covariance is that of the events it keeps",
     "itercov returns the mean vector and covariance matrix of exactly the "
     "events in its mask, for variables given one by one or as one array, "
     "with one mask entry per event.  One variable is refused.",
     "every set of events of two or three variables, every threshold",
     "Tests run it on one sample.", [CUT], [("itercov", CUT)],
     over="all numbers of events and iterations, 2 and 3 variables",
     note="np.cov by its definition; the chi2 quantile is any positive "
          "number.")
prop("K03", "Outlier removal keeps an interval of values",
     "removeoutliers never removes a value lying between two values that it "
     "keeps, and removes nothing from a sample whose skewness does not "
     "exceed the target.",
     "every sample, target skewness and number of iterations",
     "Tests run it on one sample.", [CUT], [("removeoutliers", CUT)],
     over="all lengths and iterations; the skewness is any function of the "
          "sample")
prop("K04", "Pileup and chi-square cuts judge optimum filter results",
     "pileupcut keeps the traces whose absolute optimum filter amplitude, "
     "after subtraction of the mean if asked for, is kept by the chosen "
     "outlier algorithm, chi2cut those whose chi-square is.  All traces are "
     "fitted with the same template, and an unknown algorithm is refused by "
     "every cut.",
     "every number and length of traces, rate, algorithm and nsig",
     "Tests run autocuts once.", [CUT],
     [("pileupcut", CUT), ("chi2cut", CUT)],
     over="all m, n, all rates; ofamp and the outlier algorithm enter by "
          "contract (C01, K01, K03)")
prop("K05", "Slope and baseline cuts judge the ends of each trace",
     "slopecut keeps the traces for which the difference between the means "
     "of the last and first tenth is kept by the outlier algorithm, "
     "baselinecut does so with the first mean; for dIdV traces the means are "
     "over the flat parts of the last and first period.  With symmetrizeflag "
     "the outliers are searched in the symmetrized sample only.",
     "every number and length of traces, rate, period and nsig",
     "Tests run autocuts once.", [CUT],
     [("slopecut", CUT), ("baselinecut", CUT)])
prop("K06", "Autocuts applies its cuts in turn to the traces still left",
     "A trace passes autocuts exactly if it passes every requested cut, each "
     "cut seeing only the traces that passed the cuts before it and the "
     "parameters given for it.  The second pileup cut is done on "
     "mean-subtracted traces, and only for dIdV data.",
     "every set of traces, every outcome of the single cuts, all 64 "
     "combinations of switches",
     "Tests use the defaults.", [CUT], [("autocuts", CUT)],
     over="all m, n; the single cuts by contract (arbitrary masks)")
prop("K07", "Muon cut marks traces that stay near their maximum",
     "get_muon_cut marks a trace exactly if nsatbins samples after its "
     "maximum it is still at least thresh_pct of the maximum; a trace that "
     "ends before is not marked.",
     "every set of traces, threshold and window",
     "No tests.", [CUT], [("get_muon_cut", CUT)])
prop("K08", "Unbiased estimates solve the truncated normal likelihood",
     "The unbiased mean and standard deviation returned by iterstat on "
     "request make the likelihood of the values kept, as a normal sample "
     "truncated at the cuts, stationary, in whatever unit the data are.  The "
     "values kept are the same as without them.",
     "every sample, cut and unit of the data",
     "Tests compare one sample in one unit.", [CUT],
     [("iterstat", CUT), ("_UnbiasedEstimators", CUT)],
     note="norm.pdf and norm.cdf are arbitrary functions of (x - mean)/std; "
          "fsolve returns a root of its equations (assumed; that it does so "
          "for small numbers is only checked at run time).")
prop("K09", "Symmetrized sample has equal counts in mirrored bins",
     "symmetrizedist keeps all values on the side of zero away from the "
     "bulk, none beyond the largest of those mirrored, and in every bin of "
     "the other side as many as in the mirrored bin, or all if there are "
     "fewer.",
     "every sample, whatever the sign of its mean",
     "No tests of the counts.", [CUT], [("symmetrizedist", CUT)],
     over="bounded: random executions of the real code",
     note="bounded stand-in (np.histogram and np.random.choice in a loop "
          "that accumulates a mask): random samples of up to 400 values on "
          "the real code, seeded; not a proof.")

# -------------------------------------------------------------------- IV, IbIs
IV = "qetpy/core/_iv.py"
IBIS = "qetpy/core/_ibis.py"
CF = ("scipy.optimize.curve_fit of a straight line by contract: intercept, "
      "slope and variances are functions of the points and errors it is given "
      "(real executions compare with the weighted least-squares formulas).")
prop("I01", "IV curve follows from the normal-branch line fit and load resistance",
     "The IV analysis takes current offset and total resistance from the "
     "straight line through the normal points of each temperature and "
     "channel, and derives normal resistance, TES current, resistance and "
     "power, each with its first-order error.  The load resistance may be a "
     "number, per channel, per temperature and channel, or per point.",
     "every number of temperatures, channels and points, every data set and "
     "every accepted shape of the load resistance",
     "The one IV test compares few numbers of one data set; errors and the "
     "shapes of the load resistance are not tested.", [IV],
     [("IV.__init__", IV), ("IV.calc_iv", IV)], note=CF)
prop("I02", "Automatic normal branch is the longest good straight line",
     "Without given indices the normal points of an IV curve are the first "
     "ones, contiguous and as many as possible: every shorter range from "
     "three points on has a reduced chi-square within the tolerance, and one "
     "point more exceeds it, unless all points are used.",
     "every data set (finite values) and tolerance",
     "One data set is fitted in the tests; a curve that is normal "
     "throughout, or from the start not, does not occur.", [IV],
     [("_findnormalinds", IV)], note=CF)
prop("I03", "IbIs curve without superconducting fit, and with given offsets",
     "Without superconducting points, the IbIs analysis takes the current "
     "offset from the normal line or as given, and the parasitic resistance "
     "as given in any accepted shape.  All currents, voltages, resistances "
     "and powers follow from them with first-order errors of independent "
     "quantities.",
     "every number of temperatures, channels and points, every data set",
     "Tests compare two resistances of one data set, where the shunt error "
     "dominates all others.", [IBIS],
     [("IBIS.__init__", IBIS), ("IBIS.analyze", IBIS)],
     note=CF + " The error of the normal resistance is that of the total and "
     "the parasitic resistance in quadrature, as documented by the code.")
prop("I04", "IbIs offsets are the crossing of normal and superconducting lines",
     "With superconducting points both current offsets are the coordinates "
     "of the crossing of the two lines and the parasitic resistance comes "
     "from the superconducting slope, with first-order errors of the fitted "
     "parameters taken as independent.  All other quantities follow as "
     "without superconducting fit.",
     "every number of temperatures, channels and points, every data set",
     "Tests compare four numbers of one data set, where the shunt error "
     "dominates all others.", [IBIS],
     [("IBIS.__init__", IBIS), ("IBIS.analyze", IBIS)], note=CF)
prop("I05", "IV and IbIs analysis refuse data that do not belong together",
     "Both analyses refuse data of more than three dimensions, a number of "
     "channel names other than of channels, and resistances of a shape that "
     "does not fit the data; IbIs also a superconducting fit without points. "
     "What fits is accepted and reshaped by temperature, channel and point.",
     "every shape of data, names and resistances",
     "Tests do not construct these objects with wrong shapes.", [IV, IBIS],
     [("IV.__init__", IV), ("IBIS.__init__", IBIS)])

# ---------------------------------------------------------- nonlinear fits
LS = ("scipy.optimize.least_squares by contract: it needs ordered bounds, a "
      "starting point within and positive scales, and returns a point within "
      "the bounds with its Jacobian (real executions replace it too, so that "
      "what it is given and what is made of its result is checked).")
prop("C12", "Pulse models are the transforms of their documented time forms",
     "The one- to four-pole pulses of the nonlinear fit are, per frequency, "
     "the Fourier transform of a sum of exponentials that starts at zero at "
     "the start time, scaled to the pulse height where asked.  The "
     "time-domain pulses are the samples of the same sum from the nearest "
     "sample to the start time on, and zero before.",
     "every number of samples, sample rate, amplitudes of any sign, distinct "
     "positive time constants in any order, every start time",
     "Tests fit one simulated pulse, with the rise faster than the fall.",
     ["qetpy/core/_fitting.py"],
     [("OFnonlin", "qetpy/core/_fitting.py"),
      ("shift", "qetpy/utils/_utils.py")],
     note="The spectrum is compared with the analytic transform of the time "
     "form; time samples use the contract of shift (U01).")
prop("C13", "Pulse-shape fit minimises the noise-weighted residuals it reports",
     "The fit of 1-4 pole pulses hands the optimiser a well-formed problem "
     "that starts from the given or automatic guess: the sum of squares is "
     "the noise-weighted difference of data and model without the zero "
     "frequency. Parameters, covariance, errors and reduced chi-square belong "
     "to the minimum it returns. Guesses of wrong size are refused.",
     "every trace that is not constant with its maximum before the last "
     "sample, every guess (amplitudes of any sign), bounds and noise",
     "Tests fit one simulated pulse; negative amplitudes, a start at zero "
     "and averages of several traces do not occur.",
     ["qetpy/core/_fitting.py"],
     [("OFnonlin.fit_falltimes", "qetpy/core/_fitting.py"),
      ("OFnonlin.residuals", "qetpy/core/_fitting.py")],
     note=LS + " Sample rates above 3.4 kHz (the automatic guess looks for "
     "the fall time within 300 us).")
prop("C14", "Muon-tail fit minimises the noise-weighted residuals it reports",
     "The muon-tail model is the Fourier transform of a single exponential. "
     "The fit starts within positive bounds from the height of the trace, "
     "minimises the noise-weighted difference of data and model, and reports "
     "parameters, covariance, errors and chi-square of the minimum.",
     "every trace that is not constant, every noise spectrum",
     "Tests fit one simulated muon tail.", ["qetpy/core/_fitting.py"],
     [("MuonTailFit", "qetpy/core/_fitting.py")], note=LS)

# -------------------------------------------------------------------- NSMB
NSMB = "qetpy/core/_of_nsmb.py"
PINV = ("np.linalg.pinv is a function of its argument (no property of the "
        "inverse is used).")
prop("X01", "NSMB filter setup holds the noise-weighted template overlaps",
     "The setup of the fit of one signal and several backgrounds returns the "
     "overlaps of all pairs of templates, weighted with the noise: for every "
     "delay between the signal and a background, without delay otherwise; "
     "and with them templates, spectra and weighted spectra. One background "
     "is as good as several.",
     "every number of samples, every template, noise and sample rate; 1-3 "
     "backgrounds",
     "Tests compare fitted amplitudes of one trace with several backgrounds.",
     [NSMB], [("of_nsmb_setup", NSMB), ("of_nsmb_getPf", NSMB)], note=PINV)
prop("X02", "NSMB fit returns the best delay of the window and its amplitudes",
     "The fit of one signal and several backgrounds returns a delay of the "
     "given window (as signed time) at which the chi-square is smallest over "
     "the window, with the amplitudes solving the weighted overlaps at that "
     "delay, the residual of exactly that fit and its low-frequency "
     "chi-square. The window the caller gave is not changed.",
     "every number of samples, trace, template and window (delays of any "
     "sign and size); 1-2 backgrounds",
     "Tests compare numbers of two traces with one window each.",
     [NSMB], [("of_nsmb", NSMB), ("of_nsmb_getiP", NSMB)], note=PINV)
prop("X03", "Slope and constant background templates of any length",
     "The background templates for muon tails are a straight line from zero "
     "with slope of one over the trace and a constant one, sample by sample, "
     "for every number of samples; neither has a shift.",
     "every number of samples", "Tests use one length.", [NSMB],
     [("get_slope_dc_template_nsmb", NSMB)])
prop("X04", "Background-only fit keeps every amplitude at its allowed sign",
     "No amplitude of the background-only fit has a sign its polarity "
     "constraint forbids; the others solve the overlaps of the templates that "
     "remain in use. Chi-square and low-frequency chi-square are those of the "
     "residual of that fit; overlaps of any subset of templates are those of "
     "the full set at that delay.",
     "every number of samples, trace, template and constraint; 1-2 "
     "backgrounds (subsets: 1-2 backgrounds and the signal)",
     "Tests compare one fit, whose amplitudes are all allowed.",
     [NSMB], [("of_mb", NSMB), ("_index_disallowed", NSMB),
              ("of_nsmb_getPt", NSMB)], note=PINV)
prop("X05", "NSMB fit without constraints is the plain fit of best chi-square",
     "Without polarity constraints the constrained fit returns, like the plain "
     "one, the delay of the window at which the chi-square is smallest, with "
     "amplitudes solving the overlaps there. The interpolated delay and "
     "chi-square are the vertex of the parabola through the delay and its "
     "neighbours; at the ends of the trace they are the delay itself.",
     "every number of samples, trace, template and window (delays of any "
     "sign and size); 1-2 backgrounds, one window",
     "Tests compare numbers of one trace with one window.",
     [NSMB], [("of_nsmb_con", NSMB), ("_interpchi2", NSMB)],
     note=PINV + " Amplitudes are not exactly zero; overlaps and sign test by "
     "the contracts proved in X04.")
prop("X06", "NSMB fit never returns an amplitude of a forbidden sign",
     "With polarity constraints no amplitude returned by the constrained fit "
     "has a forbidden sign, and the chi-square and residual are those of the "
     "amplitudes returned, at the delay of the window where it is smallest. The fit "
     "succeeds whatever subset of the templates the constraints leave.",
     "random executions with up to 12 samples, 1-5 backgrounds and random "
     "constraints",
     "Tests compare one fit in which no constraint is active.",
     [NSMB], [("of_nsmb_con", NSMB)],
     note="Bounded check, not a proof: the data-dependent selections of "
          "templates inside the loop over all delays are outside the "
          "verifier (the sign test and the masked overlaps are proved in "
          "X04).")
prop("U11", "Smoothing to a decreasing sequence keeps every new lowest value",
     "A sequence made decreasing has the original length, never rises, equals "
     "the original wherever that is lower than everything before (values of "
     "zero and a lowest first value included), and is a straight line between "
     "those points and beyond the last.",
     "random sequences of up to 12 values, with and without positions",
     "Tests smooth one spectrum and look at nothing.", [UTI],
     [("make_decreasing", UTI)],
     note="Bounded check, not a proof: the running minimum selects the knots "
          "of scipy's interpolation, which is outside the verifier.")
