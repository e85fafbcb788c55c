"""The property table."""

NOTES = ("All checks are static: ./check parses /repo's sources (never imports them), builds the value "
         "graph of every public call and decides the property on it; pure standard-library Python, a few "
         "seconds each. See DESIGN.md.")

ALLSRC = ["tftb/utils.py", "tftb/generators/amplitude_modulated.py",
          "tftb/generators/frequency_modulated.py", "tftb/generators/analytic_signals.py",
          "tftb/generators/misc.py", "tftb/generators/noise.py", "tftb/generators/utils.py",
          "tftb/processing/base.py", "tftb/processing/linear.py", "tftb/processing/cohen.py",
          "tftb/processing/affine.py", "tftb/processing/ambiguity.py",
          "tftb/processing/reassigned.py", "tftb/processing/postprocessing.py",
          "tftb/processing/freq_domain.py", "tftb/processing/time_domain.py",
          "tftb/processing/utils.py", "tftb/processing/plotifl.py"]
TFR = ["tftb/processing/base.py", "tftb/processing/linear.py", "tftb/processing/cohen.py",
       "tftb/processing/affine.py"]
GEN = [x for x in ALLSRC if "/generators/" in x]
COHEN = ["tftb/processing/cohen.py", "tftb/processing/base.py", "tftb/processing/linear.py"]
REAS = ["tftb/processing/reassigned.py"]

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, **anch):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": dict({"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech]}, **anch)}
    if technique:
        d["technique"], d["note"] = technique, note
    if na:
        d["na"] = na
    PROPS.append(d)


P("C01", "Callers' arrays are never modified and never handed back as results",
  "No public generator, representation, reassignment or post-processing call changes the contents of an "
  "array passed to it as an argument, in the constructor, in run() or in plot(). The arrays it returns as "
  "results do not share memory with the caller's input arrays (axes such as the time instants may be handed back unchanged).",
  ["inputs", "histories", "configurations"],
  "for every public call, every combination of optional arguments and every constructor/run/plot history",
  "A test compares outputs for a few inputs and almost never re-reads its arguments; mutation only shows when the "
  "caller reuses the array, on the branch that writes.",
  ALLSRC, [("in-place array operations", "all processing and generator functions"),
           ("signal stored by reference", "tftb/processing/base.py:BaseTFRepresentation.__init__"),
           ("signal copies", "tftb/processing/affine.py:AffineDistribution")],
  technique="interprocedural effect and alias analysis (regions) over an abstract interpretation of the AST",
  note="Sound for the modelled language subset and library models: every in-place write in every abstract call is an "
       "obligation whose target regions must exclude the argument regions. Trusts the library models (view/copy, out=).")

P("C02", "Plotting never changes what was computed",
  "Calling plot() on a representation, with any plotting options, leaves every public attribute of the object "
  "and every array returned by run() exactly as they were before, also when drawing fails half way. Drawing instantaneous frequency laws does not change the arrays drawn.",
  ["histories", "configurations"],
  "for every representation class, every plot option combination and every history run/plot",
  "The suite only checks that plots do not crash; nothing looks at the numbers after plotting.",
  TFR + ["tftb/processing/plotifl.py"],
  [("temporary replacement of the representation while drawing", "plot methods of cohen.py, linear.py and affine.py"),
   ("base plotting", "tftb/processing/base.py:BaseTFRepresentation.plot")],
  technique="effect analysis plus comparison of the abstract object state before and after plot()",
  note="Attribute bindings and array contents are compared as value-graph terms before/after plot() on normal completion, "
       "and every in-place write during plot() must target memory allocated during plot(). Matplotlib is assumed not to write to its inputs.")

P("C03", "run() is repeatable and does not disturb earlier results",
  "Calling run() again on the same object, with or without plots in between, yields the same results as the first "
  "call. The arrays returned by an earlier run() keep their contents.",
  ["histories"],
  "for every representation class and every history of run() and plot() calls on one object",
  "Tests construct an object, call run() once and look at the values; histories with two runs are never exercised.",
  TFR, [("accumulator allocation", "tftb/processing/base.py:BaseTFRepresentation._reset_tfr"),
        ("run methods", "cohen.py, linear.py, affine.py")],
  technique="value-graph equivalence (bisimulation) of first and repeated run() under abstract interpretation",
  note="The result terms of the first and the repeated run() must be bisimilar, and no write of the second run may reach "
       "memory handed out by the first; undecided comparisons are reported as such and raise no alarm.")

P("C04", "Randomness is confined to the documented stochastic generators",
  "Only the keying generators (ASK, BPSK, FSK, QPSK), the two noise generators and the noisy Doppler generator draw "
  "random numbers; every other call is a function of its arguments alone. The stochastic ones draw only from numpy's "
  "global generator, so seeding it reproduces their output, and nothing in the package re-seeds it or returns uninitialised memory.",
  ["inputs", "histories", "configurations"],
  "for every public call and every history of calls",
  "A test that compares one output cannot tell that a value came from the clock, a private generator or stale memory.",
  ALLSRC, [("random draws", "tftb/generators/analytic_signals.py, tftb/generators/noise.py")],
  technique="taint/effect analysis of random, ambient and uninitialised sources over the call graph",
  note="Every draw, seeding, clock/environment read and np.empty reaching a result is an event of the abstract call; "
       "trusts the classification of library functions.")

P("C05", "Calls leave no hidden state behind",
  "The result of a call does not depend on earlier calls: no public call changes module-level objects, class "
  "attributes, default arguments or process-wide settings, and no two calls hand out the same mutable object. Computing "
  "without plotting touches no figure, file or global numerical setting.",
  ["histories"],
  "for every sequence of public calls in one process, including importing the package",
  "Each test runs one call from a fresh state; caches and shared defaults only show on a later call with other arguments.",
  ALLSRC, [("module and class level objects", "all modules"), ("constructors", "tftb/processing/base.py, affine.py")],
  technique="escape/effect analysis for objects that outlive a call (module, class, default-argument regions)",
  note="Any write to a region or name created at import/definition time, any caching decorator, and any call of a library "
       "function with process-wide effects is reported.")

P("C20", "Every name, attribute and call signature resolves on every reachable branch",
  "Whatever valid options the caller selects, a public call never dies of an undefined or unassigned variable, a missing "
  "attribute or library function, or a call that does not fit its callee's signature. This includes rarely used branches: "
  "optional windows, alternative forms and methods, each plot kind, and boundary sizes that skip a loop.",
  ["inputs", "configurations"],
  "for every public call, option combination and input size the documentation allows",
  "Python resolves names at run time: an unexercised branch can be broken while every test passes.",
  ALLSRC, [("optional-argument branches", "all public functions"), ("plot dispatch", "tftb/processing/base.py:BaseTFRepresentation.plot")],
  technique="name/attribute resolution and definite-assignment dataflow with path feasibility by constant propagation",
  note="Each unresolved name, unassigned local, attribute or arity mismatch met on a feasible path is reported; library "
       "namespaces are a recorded table of the installed numpy/scipy/matplotlib names.")

# ------------------------------------------------------------------ shapes and axes
SHAPE_TECH = "symbolic shape inference on the value graph, with constant propagation per size partition"
SHAPE_NOTE = ("Shapes are inferred symbolically (valid for all sizes) and, where arithmetic on sizes is involved, evaluated "
              "in a finite set of size partitions extended with partitions beyond every constant the code compares a size with; "
              "undecided shapes are counted as such and raise no alarm.")
FORM_TECH = ("abstract interpretation in a polynomial-form domain with instance-wise array dataflow (value graph), "
             "partitioned on the sizes")
FORM_NOTE = ("Every element is described as a polynomial over the unknown samples and options, so agreement holds for all "
             "data in that size partition; sizes are enumerated (about 2..24, plus partitions beyond every constant the code "
             "compares a size with). Forms that cannot be compared are counted as undecided and raise no alarm.")

P("C09", "Every result array has the documented shape and matches its axes",
  "A time-frequency representation with F frequency bins at T time instants returns an F-by-T array, T time instants and F "
  "frequencies (affine ones: one row per voice; ambiguity functions: one row per Doppler bin or scale and one column per lag), "
  "and the object's attributes agree with what was returned. Reassigned representations return three F-by-T arrays, group delay "
  "one value per requested frequency, the Hough transform an accumulator matching its two axes, and descriptors scalars.",
  ["inputs", "configurations"],
  "for every signal length, number of bins, set of time instants, window and option combination",
  "Tests look at one or two sizes, usually F = T = N and powers of two; swapped axes or off-by-one lengths need other sizes.",
  TFR + REAS + ["tftb/processing/ambiguity.py", "tftb/processing/postprocessing.py", "tftb/processing/freq_domain.py",
                "tftb/processing/time_domain.py", "tftb/processing/utils.py"],
  [("allocation of the representation", "tftb/processing/base.py:BaseTFRepresentation._reset_tfr"),
   ("output allocation", "reassigned.py, ambiguity.py, postprocessing.py")],
  technique=SHAPE_TECH, note=SHAPE_NOTE)

P("C10", "Generators return exactly the requested number of samples",
  "Every signal generator asked for n samples returns arrays of exactly n samples (signal, amplitude law and frequency law alike), "
  "for odd, even and prime n and any valid option values; a generator driven by a frequency law returns one sample per law "
  "value, and mixing two signals keeps their length.",
  ["inputs", "configurations"],
  "for every n and every option combination of every generator",
  "Tests use one or two lengths per generator; rounding n/2 or repeating symbols goes wrong only for lengths not divisible.",
  GEN, [("sample counts", "all generator modules")],
  technique=SHAPE_TECH, note=SHAPE_NOTE)

P("C13", "Amplitude modulations follow their closed-form laws",
  "With t0 defaulting to round(n/2) and spread T to 2*sqrt(n), sample i of the Gaussian envelope is exp(-pi((i+1-t0)/T)^2), "
  "of the bilateral exponential exp(-sqrt(2 pi)|i-t0|/T), of the unilateral one exp(-sqrt(pi)(i-t0)/T) for i >= t0 and 0 before. "
  "The rectangular envelope is 1 where |i-t0| <= T*sqrt(3/pi)/2 and 0 elsewhere; the triangular one is max(L-|i-t0|, 0)/L with L = T*sqrt(10/pi)/2.",
  ["inputs", "configurations"], "for every length and every value of the centre and spread options",
  "Tests compare a few lengths with default or single option values; the laws are claims about all centres and spreads.",
  ["tftb/generators/amplitude_modulated.py"],
  [("envelopes", "tftb/generators/amplitude_modulated.py")], technique=FORM_TECH, note=FORM_NOTE)

P("C14", "Frequency modulations have unit modulus and the phase of their law",
  "Each frequency-modulated signal has samples exp(2 pi i phi(i)) whose phase is the integral of the frequency law it also returns, "
  "for all option values: constant f(i-t0); linear from the initial to the final frequency with phase zero at the reference sample (the integer part of the reference time); "
  "sinusoidal between its minimum and maximum with the given period, reference time, frequency and direction; hyperbolic through two "
  "points f0+c/(i+1); power law f0+c/i^k for i >= 1; parabolic a0+a1 i+a2 i^2. For an arbitrary law the phase is its running sum, zero at the reference sample.",
  ["inputs", "configurations"], "for every length and all valid values of the frequency, time and shape options",
  "Tests check one or two parameter sets, mostly the defaults, where errors in reference time, sign or scaling vanish.",
  ["tftb/generators/frequency_modulated.py"],
  [("phase laws", "tftb/generators/frequency_modulated.py")], technique=FORM_TECH, note=FORM_NOTE)

P("C16", "STFT and spectrograms equal their defining windowed Fourier sums",
  "Column t of the short-time Fourier transform is the F-point Fourier sum over lags tau of x(t+tau) h(tau) with h centred on the "
  "sample, lags limited to the signal, the half-window and round(F/2)-1. The spectrogram (plain and reassigned) is the squared modulus of "
  "that sum with the window part in use normalised to unit energy, at the requested instants.",
  ["inputs", "configurations"],
  "for every signal, window, number of bins (above or below the signal length) and set of instants",
  "The property is an identity in every sample; tests only locate maxima of a few chirps with one window.",
  COHEN + REAS, [("STFT column sum", "tftb/processing/linear.py:ShortTimeFourierTransform"),
                 ("spectrogram normalisation", "tftb/processing/cohen.py:Spectrogram"),
                 ("reassigned spectrogram", "tftb/processing/reassigned.py:spectrogram")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C17", "Reassignment moves every cell whole to the cell its fields designate",
  "Each reassigned representation is the sum of the original cells moved to their destination: nothing is lost, duplicated or dropped, so the totals agree, "
  "and cells whose magnitude is at most 1e-6 of the mean signal power stay put and are marked infinite in the field output. Destinations follow the documented centroids: the row moves by "
  "the rounded derivative-window ratio (cyclically), and for spectrogram, smoothed Wigner-Ville and Morlet the column moves by the "
  "rounded time-window ratio, clamped to the first and last column; the field output reports exactly the destination used.",
  ["inputs", "configurations"],
  "for every signal, window, number of bins and regular set of time instants",
  "Tests at most locate the peak of one chirp; conservation and the destination of each cell depend on the data everywhere.",
  REAS + ["tftb/processing/utils.py"],
  [("accumulation of displaced cells", "tftb/processing/reassigned.py"),
   ("derivative of the window", "tftb/processing/utils.py:derive_window")],
  technique=FORM_TECH, note=FORM_NOTE + " Sizes here are 2..6 with at most 20 cells (36 in the thorough tier).")

P("C26", "Wigner-Ville family equals the defining lag-product sums",
  "At each instant t the Wigner-Ville representation is the real F-point Fourier sum of x(t+tau) conj x(t-tau) over every lag the signal "
  "and round(F/2)-1 allow, plus the averaged Nyquist term where available. The pseudo version weights lags with a centred window, the smoothed-pseudo "
  "version also averages over time with a window normalised to unit sum over the samples in use; the reassigned variants report the same representation.",
  ["inputs", "configurations"],
  "for every signal, pair of windows, number of bins and set of instants",
  "Real-valuedness, marginals and localisation all follow from this identity, which must hold for every sample of every signal; tests see a few chirps.",
  COHEN + REAS, [("lag products", "tftb/processing/cohen.py:WignerVilleDistribution.run"),
                 ("smoothing windows", "tftb/processing/cohen.py:smoothed_pseudo_wigner_ville")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C27", "Margenau-Hill and Page families equal their defining sums",
  "At each instant t the Margenau-Hill (and Page) representation is the real part of the F-point Fourier sum of x(t) conj x(t-tau) over the "
  "available samples. The pseudo Margenau-Hill restricts lags to a centred window with unit central weight, the pseudo Page to "
  "non-negative lags (past samples only), and the reassigned variants report the same representation for any window, rescaled to unit central weight.",
  ["inputs", "configurations"],
  "for every signal, window, number of bins and set of instants",
  "An identity in every sample and size; tests cover one signal and the default window.",
  COHEN + REAS, [("lag products", "tftb/processing/cohen.py"), ("reassigned variants", "tftb/processing/reassigned.py")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C28", "The narrow-band ambiguity function equals its defining sum",
  "Column tau of the narrow-band ambiguity function is the Fourier sum over t of x(t+tau) conj x(t-tau), restricted to the samples where both "
  "exist, with rows ordered from the most negative Doppler to the most positive. Default lags cover the whole signal symmetrically; explicit lags are used as given.",
  ["inputs", "configurations"], "for every signal, parity of its length, lag set and number of Doppler bins at least the signal length",
  "Tests check one even-length signal with defaults; parity of the length decides row order and default lags.",
  ["tftb/processing/ambiguity.py"], [("lag loop and row order", "tftb/processing/ambiguity.py:narrow_band")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C29", "Keyed and elementary analytic signals follow their construction",
  "ASK, BPSK, QPSK and FSK signals hold one symbol per interval of the requested length, drawn anew for each interval from its alphabet ([0,1); +-1; multiples of pi/2; "
  "the evenly spaced frequencies around 0.25), and the signal is the carrier modulated by exactly the returned law, the last interval possibly cut short. "
  "Pulse, step and singularity are the analytic signals of an impulse at the given index, of a step right after it and of the documented singularity.",
  ["inputs", "configurations"], "for every length, symbol length, carrier, number of frequencies and every outcome of the random draws",
  "Random symbols make outputs differ per run, so tests only plot or compare one seeded sample; the structure must hold for all draws.",
  ["tftb/generators/analytic_signals.py"], [("symbol intervals", "tftb/generators/analytic_signals.py")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C30", "Altes, Doppler, Klauder, Mexican-hat, atoms, power-law and mixed signals",
  "These generators produce the closed-form signals of their documentation for all option values: Altes and Klauder pulses of unit energy, the Mexican-hat "
  "wavelet of length 2*ceil(1.5/nu)+1, sums of Gaussian atoms at their coordinates with their amplitudes and durations, the Doppler signal with its amplitude and frequency laws from the source-receiver geometry, and "
  "the zero-mean unit-energy power-law group-delay signal with its delay law. Mixing adds the second signal scaled so that the energy ratio in dB is the requested one.",
  ["inputs", "configurations"], "for every length and all valid option values",
  "Tests fix one parameter set for each; unit energy, geometry and ratio are claims for all parameters.",
  ["tftb/generators/misc.py", "tftb/generators/noise.py", "tftb/generators/utils.py"],
  [("signal formulas", "tftb/generators/misc.py"), ("energy ratio", "tftb/generators/utils.py:sigmerge")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C31", "Signal descriptors equal their defining moments and phase formulas",
  "Mean time and mean frequency are the energy-weighted means of the sample index and of the signed normalised frequency, and the spreads are "
  "2*sqrt(pi*variance). The instantaneous frequency at t is (angle(-x(t) conj x(t-2)) + pi)/(4 pi), the group delay the real part of the ratio of "
  "the index-weighted to the plain Fourier sum (zero outside [1, n+3]), and the spectrum the centred squared modulus of the transform; row and column vectors are treated alike.",
  ["inputs", "configurations"], "for every signal (also as row or column vector), set of instants and set of frequencies",
  "Tests evaluate a Gaussian pulse and one chirp; a moment formula is an identity for every signal.",
  ["tftb/processing/time_domain.py", "tftb/processing/freq_domain.py", "tftb/processing/utils.py"],
  [("moments", "time_domain.py:loctime, freq_domain.py:locfreq"), ("phase formulas", "freq_domain.py")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C32", "Post-processing: entropy, Hough transform, ideal map and quadrature",
  "The Renyi information of order alpha is log2 of the integral of the normalised representation to the power alpha over 1-alpha (Shannon form at alpha = 1), "
  "using trapezoidal integration over the given axes. The Hough transform adds each pixel above a twentieth of the maximum to the cell "
  "of every line through it; the ideal map is 1 exactly at the bin of each law at each instant and 0 elsewhere. The window derivative is the centred difference with end corrections.",
  ["inputs", "configurations"], "for every image, axis, order, accumulator size and set of laws",
  "Tests use one representation and default sizes; formulas must hold for all images, axes and orders.",
  ["tftb/processing/postprocessing.py", "tftb/processing/utils.py"],
  [("entropy, Hough, ideal map", "tftb/processing/postprocessing.py"),
   ("quadrature and window derivative", "tftb/processing/utils.py")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C33", "Numeric utilities: powers of two, divisors, residues, odd numbers, linearity, Zak inverse",
  "The next power of two returns the least k with 2^k >= n; the divider pair multiplies to n, the first factor being the largest divisor not exceeding ceil(sqrt n); "
  "the residue lies in 1..n with multiples of n mapped to n; the nearest odd integer keeps odd floors and otherwise goes up by one; sequences and arrays are taken element by element, complex residues part by part. An array is linear when its consecutive steps, rounded to the given decimals, are all the same. The inverse Zak transform is the unitary inverse Fourier sum over rows, read column-interleaved.",
  ["inputs"], "for every integer and array argument",
  "Tests sample a handful of integers.",
  ["tftb/utils.py"],
  [("integer helpers", "tftb/utils.py"), ("inverse Zak", "tftb/utils.py:izak")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C24", "The axes handed out with a result are the true time instants and frequencies of its cells",
  "The time axis returned (and kept as attributes) is the requested instants, or 0..N-1 by default. Frequency axes are normalised: k/F with the upper half negative "
  "for transforms spanning the whole circle, k/(2F) for Wigner-Ville and its smoothed form. Affine results carry geometrically spaced frequencies with both ends of the requested band; "
  "ambiguity axes are the centred lags and Doppler bins (geometric log-scale for the wide-band one), and the instantaneous frequency comes with its own instants.",
  ["inputs", "configurations"], "for every signal length, number of bins or voices, set of instants and band",
  "Tests look at representation values and hardly ever at the axes, and then for one size; parity and scaling slips appear at other sizes only.",
  TFR + ["tftb/processing/ambiguity.py", "tftb/processing/freq_domain.py"],
  [("axes kept as attributes", "tftb/processing/base.py:BaseTFRepresentation"),
   ("half-band axes", "tftb/processing/cohen.py:WignerVilleDistribution"),
   ("geometric frequency axis", "tftb/processing/affine.py:AffineDistribution"),
   ("lags, Doppler bins and scales", "tftb/processing/ambiguity.py")],
  technique="abstract interpretation with instance-wise array dataflow, constant propagation of the axes on size partitions",
  note="Axis values do not depend on the data, so per size they are folded exactly from the source and compared with the definition (sizes 1..13 and selected up to 257). "
       "Lengths that depend on the data-driven default band are left out.")

P("C34", "Affine distributions follow their Mellin-domain construction",
  "Bertrand, D-Flandrin and Unterberger (active and passive) cells equal the real, time-centred bilinear form "
  "f * integral over u of mu(u) Z(f lambda(u)) conj Z(f lambda(-u)) exp(2i pi f t (lambda(u)-lambda(-u))), built by geometric Fourier sampling, "
  "discrete Mellin scaling with each class's own lambda, u-range and weight, cubic interpolation onto the requested instants, and normalised so that the time-frequency integral "
  "carries the signal's energy in the analysed band. The default number of voices is the power of two following the documented bound, and the default band "
  "runs between the multiples of 0.05 enclosing the positive bins of the signal's spectrum whose power exceeds 1 % of the largest.",
  ["inputs", "configurations"], "for every signal, band, number of voices and form",
  "Tests only compare gross shape and peak position on one atom; a changed exponent, index or weight moves values smoothly and stays within their tolerance.",
  ["tftb/processing/affine.py", "tftb/processing/utils.py"],
  [("Mellin scaling", "affine.py: run() of BertrandDistribution, DFlandrinDistribution, UnterbergerDistribution"),
   ("energy normalisation and voices", "affine.py:AffineDistribution"), ("quadrature", "processing/utils.py:integrate_2d")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C35", "The scalogram is the squared modulus of the wavelet transform it returns",
  "Row k of the wavelet transform is the inner product of the zero-mean analytic signal with the Morlet (or Mexican-hat when the width is 0) wavelet dilated to "
  "frequency k of a geometric axis between the two band limits, with unit-energy scaling by 1/sqrt(a). The scalogram is its squared modulus scaled so that its "
  "time-frequency integral equals the energy of the signal in the band, for any width, band and number of voices. "
  "The default band runs between the multiples of 0.05 enclosing the positive bins whose power exceeds 1 % of the largest.",
  ["inputs", "configurations"], "for every real or complex signal, wavelet width, band and number of voices",
  "Tests check one signal with the default width; edge columns, odd lengths and the Mexican-hat branch are not compared with anything.",
  ["tftb/processing/affine.py"],
  [("wavelet transform", "tftb/processing/affine.py:Scalogram.run"), ("quadrature", "tftb/processing/utils.py:integrate_2d")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C36", "The wide-band ambiguity function correlates the signal with its dilated, shifted copies",
  "Cell (theta, tau) is proportional to the inner product of the analytic signal with its copy dilated by exp(theta) and delayed by tau, evaluated by "
  "Mellin scaling on the given band, scaled so that the origin equals the band energy per voice. The delays are the integers "
  "centred on half the length, the log dilations V even steps from -log(fmax/fmin) to log(fmax/fmin), and the default band runs between the multiples of "
  "0.05 enclosing the bins of the analytic signal's spectrum whose power exceeds 1 % of the largest.",
  ["inputs", "configurations"], "for every signal, band and number of voices",
  "One numeric comparison on a fixed atom cannot see errors that vanish by symmetry, parity or size.",
  ["tftb/processing/ambiguity.py"], [("wide-band ambiguity", "tftb/processing/ambiguity.py:wide_band")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C18", "Arguments outside the documented domain are rejected, and the whole domain is accepted",
  "Generators raise TypeError for non-positive lengths, normalised frequencies outside [-0.5, 0.5] (or carriers outside [0, 0.5]), laws leaving [-0.5, 0.5] or time origins outside 1..N, "
  "a zero group-delay rate and unphysical Doppler parameters. Smoothing windows of even length, irregularly spaced instants, unknown ridge methods and negative distributions with order-1 entropy raise ValueError, "
  "matrices where a vector is due raise TypeError (ValueError for the wide-band ambiguity). Every value inside these domains, ends included, passes the guards.",
  ["inputs", "configurations"], "for every argument value inside or outside the documented ranges",
  "Tests try one or two grossly wrong values; the ends of each range, each separate argument and wrongly rejected valid values are not tried.",
  ["tftb/generators/amplitude_modulated.py", "tftb/generators/frequency_modulated.py", "tftb/generators/analytic_signals.py",
   "tftb/generators/misc.py", "tftb/processing/cohen.py", "tftb/processing/reassigned.py", "tftb/processing/linear.py",
   "tftb/processing/postprocessing.py", "tftb/processing/time_domain.py", "tftb/processing/freq_domain.py", "tftb/processing/ambiguity.py"],
  [("argument guards", "generators and processing functions, raise statements")],
  technique="path-condition analysis: guards of every raise statement, evaluated by constant propagation at and around the ends of each documented interval",
  note="The path condition of each raise is extracted interprocedurally and decided exactly at both ends of each interval, just inside and outside, and far outside; "
       "a linear guard deciding those points correctly decides the interval. Guards that cannot be evaluated count as undecided.")

P("C37", "The Gabor coefficients are inner products with the shifted, modulated dual window",
  "The dual window returned by gabor() is the Zak-domain (Moore-Penrose) dual of the synthesis window on the requested lattice; each coefficient is the inner product of the signal "
  "with the dual window shifted by whole lattice steps and modulated by whole frequency steps, circularly; the representation is the squared modulus of the coefficients.",
  ["inputs", "configurations"], "for every signal, admissible number of coefficients, oversampling factor and window",
  "One seeded example with one lattice leaves index and modulus slips at other lattices, odd lengths and oversampling factors unseen.",
  ["tftb/processing/linear.py", "tftb/utils.py"],
  [("dual frame and coefficients", "tftb/processing/linear.py:gabor"), ("Zak transforms", "tftb/utils.py:izak")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C38", "Noise generators are the documented filtering and normalisation of their random draws",
  "noisecu and noisecg return the last n_points samples of the analytic signal of centred, unit-variance white draws (independent parts for one or two samples). "
  "dopnoise drives a two-pole resonator tuned to the Doppler law with white noise and returns its analytic, amplitude-shaped, unit-energy output together with the law.",
  ["inputs"], "for every sample count and every outcome of the random draws",
  "Tests only look at seeded or averaged statistics; a resonator tap, a normalisation or a slice can be wrong within statistical tolerance.",
  ["tftb/generators/noise.py"], [("noise generators", "tftb/generators/noise.py")],
  technique=FORM_TECH,
  note=FORM_NOTE + " The draws are symbolic samples, so the statement holds for every outcome; their distribution is only identified by the generator that was called.")

P("C40", "Dilation and Mellin-domain helpers equal their formulas",
  "scale() returns the energy-preserving dilation computed through the discrete Mellin transform on the geometric band [fmin, fmax]. "
  "lambdak equals its affine-group formula for every kind, 1 at u = 0 included, and umaxdfla_solve vanishes at the bound set by the bandwidth ratio.",
  ["inputs", "configurations"], "for every signal, factor, band, number of voices and u",
  "Tests try no dilation by a factor other than the defaults and no u at the singular point.",
  ["tftb/generators/utils.py", "tftb/processing/affine.py"],
  [("dilation", "tftb/generators/utils.py:scale"), ("lambda functions", "tftb/processing/affine.py:lambdak")],
  technique=FORM_TECH, note=FORM_NOTE)

P("C21", "Every documented call completes, and generated signals are finite",
  "Inside the documented domain no generator, representation, reassignment, descriptor, post-processing or plotting call fails part-way: every index stays inside its array, "
  "array operands and stored blocks have matching shapes, sizes, loop bounds and slice bounds are integers, no scalar is divided by zero, and no real-only function leaves its domain. "
  "Generators and numeric utilities return neither NaN nor infinity, down to one-sample signals and windows.",
  ["inputs", "configurations"], "for every length (odd, even, one sample), number of bins, voices, set of instants, window length and option combination of the documented domain",
  "Each test uses one comfortable size; failures sit at odd or tiny lengths, at particular roundings of a computed step, or in branches of options no test combines.",
  ALLSRC,
  [("index arithmetic and allocation", "all run() methods and generators"),
   ("lag windows clipped at the record ends", "tftb/processing/cohen.py, tftb/processing/reassigned.py"),
   ("grids with computed counts", "tftb/processing/affine.py, tftb/generators/")],
  technique="abstract interpretation: one obligation per operation that can fail, decided by interval analysis under its path condition on partitions of the argument sizes, loops first as intervals then iteration by iteration",
  note="Obligations whose operands depend on sample values (e.g. a cell index obtained by rounding a computed displacement) may stay undecided and raise no alarm; "
       "sizes are partitioned (small sizes exhaustively, selected larger ones), data is unconstrained.")

P("C41", "Ridge points and reassigned-energy histograms",
  "ridges() returns, column by column and in row order, one (instant, frequency) pair for every cell above half the mean that the reassignment fields leave in place, none lost and none added, "
  "with frequencies row/R for 'rsp' and 'type1' and row/(2R) otherwise; it returns two empty arrays when no cell qualifies. "
  "friedman_density() returns, per column, the number of above-threshold cells that the field sends to each row, normalised to unit sum.",
  ["inputs", "configurations"], "for every representation, displacement field, method and set of instants",
  "The tests only look at the ridges of one smooth signal, where the points of most columns can be lost unnoticed.",
  ["tftb/processing/postprocessing.py"],
  [("ridge extraction", "tftb/processing/postprocessing.py:ridges"), ("histogram", "tftb/processing/postprocessing.py:friedman_density")],
  technique="abstract interpretation to a value graph, evaluated on partitions of the comparison outcomes (cell below, at or above the threshold; displacement designating its own cell or another), element by element against the stated rule",
  note="Grids up to 5 x 3 cells; the cell values only enter through comparisons and sums.")

P("C42", "Plots show the representation at its own instants and frequencies",
  "plot() draws the representation that run() returned: the displayed half of its rows, as modulus or squared modulus where documented, cells not above threshold times the maximum blanked and all others unchanged, "
  "by the drawing function of the requested kind, at the contour levels asked for (evenly spaced above the threshold by default for affine classes, geometrically for scale='log'), over time and frequency coordinates that match the drawn cells in shape and value (imshow extent, contour and surface grids); on the axes given by the caller; "
  "with the default labels exactly when asked for; calling plt.show exactly when asked for; with show_tf, beside the waveform (real part) and a spectrum whose points lie on the power spectrum of the signal. "
  "plotifl() draws the laws, and the real part of the signal, against the instants given.",
  ["inputs", "configurations"], "for every representation class, kind of plot, option combination, size, set of instants and matrix content",
  "Tests only check that plotting some default does not raise, or nothing at all: a picture can be mirrored, mislabelled, thresholded wrongly or drawn on another figure without any test noticing.",
  ["tftb/processing/base.py", "tftb/processing/linear.py", "tftb/processing/cohen.py", "tftb/processing/affine.py", "tftb/processing/plotifl.py"],
  [("plot methods", "tftb/processing/base.py:BaseTFRepresentation.plot and its overrides"),
   ("side panels", "tftb/processing/base.py:_plot_signal, _plot_spectrum"), ("law plots", "tftb/processing/plotifl.py:plotifl")],
  technique="abstract interpretation of the plot methods: every drawing call is recorded with the value graph of its arguments under its path condition, and compared cell by cell with the documented picture",
  note="The representation is an arbitrary matrix; matrices, sizes and instants are sampled partitions (positive, negative, complex, below-threshold cells). What matplotlib does with the arguments is not analysed.")

P("C39", "No argument is silently ignored",
  "The result of every generator, representation, descriptor and post-processing function depends on each argument the caller gives: each option documented for the call reaches the returned values "
  "(fwindow only where the representation has a lag or analysis window).",
  ["configurations"], "for every public call and every combination of optional arguments",
  "Tests call functions with their defaults or compare with stored output; an option that is parsed, overwritten or dropped on one path yields plausible output nobody compares.",
  ALLSRC, [("optional arguments", "all public functions and constructors")],
  technique="dependence analysis: reachability of each argument from the result in the value graph (data and control dependences)",
  note="Reachability over-approximates influence, so a reported argument is certainly ignored; a formal dependence that cancels out is not seen here but by the value checks. plotifl and plot() options belong to C42.")

P("C06", "Noise generators have the documented mean and variance",
  "Samples of noisecu and noisecg have zero mean, unit variance and uncorrelated real and imaginary parts; the doppler noise has unit energy.",
  ["inputs"], "for every length and over all seeds",
  "A test sees one seed; the claim is about the distribution.",
  ["tftb/generators/noise.py"], [("noise generators", "tftb/generators/noise.py")],
  na="A statement about the distribution of run-time draws: no static argument in reach bounds it. What is structural about it, the filtering and normalisation of the draws and their source, is decided by C38 and C04.")
P("C07", "Affine distributions conserve energy and keep time and frequency marginals",
  "The integral of an affine distribution over its grid approximates the energy of the signal in the band, and a dilated or shifted signal gives a dilated or shifted distribution up to discretisation.",
  ["inputs"], "for every signal, band and number of voices",
  "Tests compare one chirp with stored numbers.",
  ["tftb/processing/affine.py"], [("affine distributions", "tftb/processing/affine.py")],
  na="Holds only up to interpolation and sampling errors that depend on the signal at run time; static bounds would be vacuous. The construction itself is decided by C34 and C35.")
P("C08", "Estimates of instantaneous frequency, group delay and ridges are close to the true laws",
  "On analytic single-component signals, inst_freq, group_delay and ridges return values within a tolerance of the law the signal was generated with, also under moderate noise.",
  ["inputs"], "for every smooth law, length and noise level",
  "Tests use one or two laws.",
  ["tftb/processing/freq_domain.py", "tftb/processing/postprocessing.py"],
  [("estimators", "tftb/processing/freq_domain.py"), ("ridges", "tftb/processing/postprocessing.py:ridges")],
  na="Estimation error is an analytic bound on run-time data, not a fact of the source; C31 and C41 decide that the estimators compute their defining formulas.")
P("C11", "Results are accurate to a few ulps of the exact formulas",
  "The floating-point results of generators and representations differ from the exact formulas by rounding errors proportional to the machine epsilon.",
  ["inputs"], "for every argument",
  "Tests use loose tolerances on samples.",
  ALLSRC, [("floating point evaluation", "all modules")],
  na="The analyses treat arithmetic as exact; error bounds for FFT-based pipelines over unbounded inputs are out of reach of a static argument here.")
