#!/opt/venv/bin/python
"""Write /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))

GEN = "tftb/generators/"
PRO = "tftb/processing/"

# id, title, statement, over, quantifier text, why tests cannot, mechanisms (name, where), note
P = []


def prop(pid, title, statement, over, text, why, mechanism, note, state=None):
    files = []
    for _, where in mechanism:
        f = where.split(":")[0]
        if f not in files:
            files.append(f)
    anchors = dict(files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        anchors["state"] = state
    P.append(dict(row=dict(id=pid, title=title, statement=statement,
                           quantifier=dict(over=over, text=text),
                           why_tests_cant=why, anchors=anchors), note=note))


prop("C01", "Generators return exactly the number of samples asked for",
     "For every valid choice of its parameters, each signal generator returns a finite, one "
     "dimensional array with exactly the requested number of samples, and each companion it "
     "returns (frequency law, amplitude) has the documented length too. A parameter that is left "
     "out takes its documented default.",
     ["inputs", "configurations"],
     "All 27 generators, lengths 1 to several thousand (odd, even, prime, powers of two), every "
     "parameter present or absent.",
     "The tests call each generator with one or two even lengths (mostly 64 or 128) and defaults; "
     "off by one lengths appear only for odd or non-dividing lengths.",
     [("amplitude envelopes", GEN + "amplitude_modulated.py:amgauss, amexpos, amrect, amtriang"),
      ("frequency modulations", GEN + "frequency_modulated.py:fm*"),
      ("analytic signals", GEN + "analytic_signals.py:ana*"),
      ("noise", GEN + "noise.py:noisecu, noisecg, dopnoise"),
      ("others", GEN + "misc.py:doppler, gdpower, klauder, altes, atoms"),
      ("merging", GEN + "utils.py:sigmerge")],
     "Lengths up to 6000; statistical quality of noise is C07's.")

prop("C02", "Amplitude envelopes have their documented shape, centre and spread",
     "The Gaussian, exponential, rectangular and triangular envelopes equal their closed forms: "
     "unit peak, centred on the given time (by default the middle of the signal; the Gaussian "
     "numbers its samples from one, the others from zero), with the time spread given (by default twice the square root of the "
     "length), and never negative. Where the envelope fits the signal, its measured mean time and "
     "duration are the ones asked for.",
     ["inputs", "configurations"],
     "Every length, time centre inside or outside the signal, spread from a fraction of a sample "
     "to many times the signal.",
     "Tests compare a handful of envelopes with stored numbers or with the same formula at one "
     "length.",
     [("Gaussian", GEN + "amplitude_modulated.py:amgauss"),
      ("exponential", GEN + "amplitude_modulated.py:amexpos"),
      ("rectangular", GEN + "amplitude_modulated.py:amrect"),
      ("triangular", GEN + "amplitude_modulated.py:amtriang")],
     "Closed forms are re-derived independently; samples where floating point decides on which "
     "side of an edge a sample lies are excepted.")

prop("C03", "Frequency modulated signals follow the frequency law they return",
     "Each frequency modulated signal (constant, linear, sinusoidal, parabolic, power, hyperbolic, "
     "arbitrary law) has unit modulus, is exactly one at the time reference it was given (or its "
     "default), and its phase is the integral of the frequency law it returns. That law is the "
     "one asked for: it takes the given frequencies at the given instants.",
     ["inputs", "configurations"],
     "Every length, every pair or triple of normalised frequencies in range, every time "
     "reference in the signal, every way of giving the law (endpoints, points, coefficients).",
     "Tests check a few stored sequences; phase reference, non central references and odd lengths "
     "are not reached.",
     [("constant", GEN + "frequency_modulated.py:fmconst"),
      ("linear", GEN + "frequency_modulated.py:fmlin"),
      ("sinusoidal", GEN + "frequency_modulated.py:fmsin"),
      ("parabolic", GEN + "frequency_modulated.py:fmpar"),
      ("power", GEN + "frequency_modulated.py:fmpower"),
      ("hyperbolic", GEN + "frequency_modulated.py:fmhyp"),
      ("arbitrary", GEN + "frequency_modulated.py:fmodany")],
     "Phases compared with the rounding of a phase of their size.")

prop("C04", "Out of range parameters are refused, valid ones accepted",
     "A parameter outside its documented domain (normalised frequencies beyond half the sampling "
     "rate, time references outside the signal, non positive lengths, mis-shaped signals, unknown "
     "envelope kinds and ridge methods) is refused with an exception, and every parameter inside the domain, its limits "
     "included, is accepted. A chirp whose frequency law leaves [0, 0.5] without being refused "
     "is announced by a warning, and no other is.",
     ["inputs", "configurations"],
     "Every documented domain of every public function, at its boundaries, just inside and just "
     "outside; vectors of parameters with one bad entry anywhere.",
     "Tests exercise a few clearly invalid values; off by one or weakened comparisons only show "
     "at the boundary.",
     [("generator checks", GEN + "frequency_modulated.py:raise ValueError"),
      ("analytic signal checks", GEN + "analytic_signals.py:raise"),
      ("misc checks", GEN + "misc.py:raise"),
      ("moment checks", PRO + "time_domain.py:raise"),
      ("frequency checks", PRO + "freq_domain.py:raise"),
      ("window and bin checks", PRO + "base.py:raise"),
      ("utility checks", "tftb/utils.py:raise"),
      ("reassigned checks", PRO + "reassigned.py:raise")],
     "Any exception counts as a refusal; messages are not compared.")

prop("C05", "Digital modulations are keyed carriers with the documented alphabet",
     "Amplitude, frequency, binary and quaternary phase keyed signals hold one symbol constant "
     "during each symbol period and change only at period boundaries, on a carrier at the given "
     "frequency whose phase is referenced as documented; the symbols returned beside the signal "
     "are the ones in it. Symbols come from the documented alphabet, independent and equally "
     "likely: uniform amplitudes, opposite signs, quarter turns, equally spaced frequencies.",
     ["inputs", "configurations"],
     "Every number of points, symbol length (dividing it or not, larger than it), carrier and "
     "number of frequencies, for every state of the random generator.",
     "Tests check unit modulus or bounds for one dividing symbol length.",
     [("amplitude shift keying", GEN + "analytic_signals.py:anaask"),
      ("binary phase shift keying", GEN + "analytic_signals.py:anabpsk"),
      ("frequency shift keying", GEN + "analytic_signals.py:anafsk"),
      ("quaternary phase shift keying", GEN + "analytic_signals.py:anaqpsk")],
     "Equal likelihood is tested at seven standard errors, with seeded generators.")

prop("C06", "Analytic pulses, steps and singularities are what they are analytic for",
     "The analytic pulse and step have the impulse and the step at the given instant as their "
     "real parts and no energy at negative frequencies; the singularity has the documented "
     "spectrum, with the given Hoelder strength, at the given instant.",
     ["inputs", "configurations"],
     "Every length, odd or even, every instant, every strength.",
     "Tests compare one length and instant with scipy's output.",
     [("pulse", GEN + "analytic_signals.py:anapulse"),
      ("step", GEN + "analytic_signals.py:anastep"),
      ("singularity", GEN + "analytic_signals.py:anasing")],
     "Oracle: direct discrete Fourier sums.")

prop("C07", "Complex noise is analytic, with unit power and the documented distribution",
     "Complex Gaussian and uniform noise is the tail of an analytic signal whose length is a power "
     "of two: no negative frequencies, zero mean, unit power, circular, uncorrelated real parts "
     "with the named distribution. Every draw is new, and is reproduced by seeding numpy's "
     "generator; noise given the coefficients of a filter is filtered by it.",
     ["inputs", "histories"],
     "Every length and filter, every state of the random generator, sequences of draws.",
     "Tests check mean and variance of one draw with loose tolerances.",
     [("uniform", GEN + "noise.py:noisecu"), ("Gaussian", GEN + "noise.py:noisecg")],
     "Statistical laws have margins beyond six standard errors and seeded draws.")

prop("C08", "Doppler signals follow the physics of a moving target",
     "The Doppler signal has the frequency law, amplitude and phase of a monochromatic source "
     "passing by at constant speed, evaluated with the given sound speed, distance, target speed "
     "and sampling frequency. The Doppler noise is noise filtered by a resonance following that "
     "same law, which it returns.",
     ["inputs", "configurations"],
     "Every length, geometry and speed in range, every time centre.",
     "Tests compare one configuration with a few stored numbers.",
     [("signal", GEN + "misc.py:doppler"), ("noise", GEN + "noise.py:dopnoise")],
     "The resonant filter is inverted exactly from the law returned.")

prop("C09", "Altes, Klauder, Mexican hat and power delay signals match their definitions",
     "The Altes signal, the Klauder wavelet, the Mexican hat wavelet and the signal with a power "
     "law group delay equal their defining formulas, sample by sample, and the group delay and "
     "frequencies returned with the last one describe it.",
     ["inputs", "configurations"],
     "Every length, frequency band, attenuation, rate and degree in range.",
     "Tests compare single stored sequences.",
     [("Altes", GEN + "misc.py:altes"), ("Klauder", GEN + "misc.py:klauder"),
      ("Mexican hat", GEN + "misc.py:mexhat"), ("power group delay", GEN + "misc.py:gdpower")],
     "Closed forms re-derived independently.")

prop("C10", "Gabor atoms add up and merged signals have the requested ratio",
     "A linear combination of elementary Gaussian atoms is the sum, over the coordinates given, "
     "of the given amplitude times an atom centred on the given time and frequency with the given "
     "duration, whatever their number and order. Merging two signals keeps the first, adds a "
     "positive multiple of the second, and the energy ratio in decibels is the one asked for.",
     ["inputs", "configurations"],
     "Every number of atoms (one, many, repeated), every ratio, lengths and dtypes.",
     "Tests use two fixed atoms and one ratio.",
     [("atoms", GEN + "misc.py:atoms"), ("merging", GEN + "utils.py:sigmerge")],
     "Superposition is checked against single envelopes and tones computed independently.")

prop("C11", "Scaling a signal dilates it in time and compresses its spectrum",
     "Scaling through the Mellin transform gives the documented discrete dilation, keeps the "
     "energy of the analysed band, treats the signal linearly, and moves a wave packet to its "
     "frequency divided by the factor and its duration multiplied by it.",
     ["inputs", "configurations"],
     "Every signal, factor(s), frequency band and number of points.",
     "No test reached the function, which raised on every input.",
     [("Mellin scaling", GEN + "utils.py:scale")],
     "Independent direct evaluation of the discrete Mellin sums.")

prop("C12", "Number utilities satisfy their specifications for every number",
     "The divider pair multiplies back to the number with factors as near to the square root as "
     "can be, the next power of two is the smallest "
     "exponent that reaches the number, the nearest odd number is odd and within one (an even number "
     "goes up), the modulo lies in (0, N] and is congruent, the linearity test is right, and the "
     "inverse Zak transform inverts the Zak transform and keeps the energy.",
     ["inputs"],
     "All integers up to 1e11 (squares and products of neighbours up to 2^80), real numbers, "
     "arrays and sequences of every shape.",
     "Tests check a few small numbers.",
     [("generator utilities", GEN + "utils.py:nearest_odd"),
      ("processing utilities", PRO + "utils.py:*"),
      ("utilities", "tftb/utils.py:*")],
     "Definitions evaluated independently with exact integer arithmetic.")

prop("C13", "Time and frequency localisations are the signal's moments",
     "The mean time and duration, and the mean frequency and bandwidth, are the first moments and "
     "second centred moments of the signal's energy and of its spectrum, with the documented "
     "normalisation. They do not depend on the signal's amplitude or phase, follow its shifts, "
     "and satisfy the uncertainty relation.",
     ["inputs"],
     "Every signal with energy, of every length (odd and even), dtype and shape.",
     "Tests use one even length Gaussian.",
     [("time", PRO + "time_domain.py:loctime"), ("frequency", PRO + "freq_domain.py:locfreq")],
     "Moments re-evaluated by direct sums.")

prop("C14", "Instantaneous frequency and group delay estimates read back the law",
     "The instantaneous frequency at an instant is the phase advance over two samples divided by "
     "four pi, in [0, 0.5], at each instant asked for and in that order, and a chirp's own law is "
     "read back whatever its phase and envelope. The group delay at each frequency is the "
     "mean time of that frequency, so that a delayed impulse reads its delay at all frequencies.",
     ["inputs", "configurations"],
     "Every signal, selection of instants and frequencies, half window.",
     "Tests use one linear chirp with default arguments.",
     [("instantaneous frequency", PRO + "freq_domain.py:inst_freq"),
      ("group delay", PRO + "freq_domain.py:group_delay")],
     "Phases at which the principal value is ambiguous are excepted.")

prop("C15", "The short time Fourier transform equals its definition",
     "Each column of the short time Fourier transform is the discrete Fourier transform of the "
     "signal around its instant weighted by the conjugate window (as given, or by default; the "
     "part within half the bins), taken as zero outside, with the frequency of each row as its label. It is linear in the "
     "signal, and modulating the signal by a bin rotates the rows.",
     ["inputs", "configurations"],
     "Every signal, number of frequency bins (fewer or more than samples, odd or even), window "
     "(shorter or longer than the bins) and time labels.",
     "Tests compare ideal shapes on a chirp by similarity thresholds.",
     [("transform", PRO + "linear.py:ShortTimeFourierTransform"), ("axes", PRO + "base.py:BaseTFRepresentation")],
     "Direct sums; the column convention is that of the documented transform.")

prop("C16", "The spectrogram is the squared modulus, non negative, with the signal's energy",
     "Each column of the spectrogram is the squared modulus of the windowed Fourier transform "
     "around its instant, the window scaled to unit energy over the samples it meets; it is real, never negative, unaffected by a "
     "phase factor, and its total over all instants and bins is the energy of a signal that stays a "
     "window away from the ends.",
     ["inputs", "configurations"],
     "Every signal, selection of instants, number of bins and window.",
     "Tests compare one chirp with an ideal shape.",
     [("spectrogram", PRO + "cohen.py:Spectrogram")],
     "Direct sums; instants are counted from one.")

prop("C17", "The Wigner-Ville distribution is exact: real, marginals, energy, covariances",
     "The Wigner-Ville distribution equals its definition (the Fourier transform of the "
     "symmetric lag products at each instant): it is real, sums over frequency to the "
     "instantaneous power, conserves energy, follows time and frequency shifts and obeys Moyal's "
     "formula. Its frequency labels run from zero over half the sampling rate.",
     ["inputs", "configurations"],
     "Every real or complex signal of every length, any number of frequency bins and time labels.",
     "Tests look at one Gaussian atom and chirp, with even powers of two.",
     [("distribution", PRO + "cohen.py:WignerVilleDistribution")],
     "Lag products folded as a transform of that many bins folds them.")

prop("C18", "Pseudo and smoothed pseudo Wigner-Ville are the windowed distributions",
     "The pseudo distribution is the Wigner-Ville distribution with its lags weighted by the "
     "frequency window, and the smoothed one is further averaged in time by the normalised time "
     "window; both are real, follow shifts, scale with the energy, and reduce to the "
     "Wigner-Ville distribution for the trivial windows.",
     ["inputs", "configurations"],
     "Every signal, selection of instants, number of bins, and windows (odd, symmetric or not, "
     "longer than the bins).",
     "Tests look at one signal with default windows.",
     [("pseudo", PRO + "cohen.py:PseudoWignerVilleDistribution"),
      ("smoothed", PRO + "cohen.py:smoothed_pseudo_wigner_ville")],
     "Direct sums.")

prop("C19", "Margenau-Hill and Page distributions and pseudo versions equal their definitions",
     "The Margenau-Hill distribution is the real part of the signal times its conjugate spectrum "
     "(Rihaczek), the Page distribution is causal (no column depends on later samples), both sum "
     "over frequency to the instantaneous power, and the pseudo versions are the same lag "
     "products weighted by the frequency window. All are real.",
     ["inputs", "configurations"],
     "Every signal, selection of instants, number of bins and window.",
     "Tests look at one atom with loose thresholds, or not at all.",
     [("Margenau-Hill", PRO + "cohen.py:MargenauHillDistribution, PseudoMargenauHillDistribution"),
      ("Page", PRO + "cohen.py:PageRepresentation, PseudoPageRepresentation")],
     "Direct sums over lags.")

prop("C20", "The narrow band ambiguity function equals its definition",
     "The narrow band ambiguity function at a lag and Doppler is the Fourier transform over time "
     "of the symmetric lag products at that lag; its origin is the signal's energy and its "
     "largest modulus, and it is Hermitian for opposite lags and Dopplers. It returns the lag and "
     "Doppler of each of its entries.",
     ["inputs", "configurations"],
     "Every signal, list of lags, number of bins.",
     "Tests compare with stored values of one signal.",
     [("ambiguity function", PRO + "ambiguity.py:narrow_band")],
     "Direct sums.")

prop("C21", "The wide band ambiguity function correlates the signal with its dilations",
     "The wide band ambiguity function is the correlation of the signal with its dilated and "
     "delayed copies, scaled by the energy of the signal in the band; its modulus peaks at no "
     "delay and unit scale, and it returns the delay and scale of each of its entries. The band, when left out, "
     "is the one the signal occupies, however narrow.",
     ["inputs", "configurations"],
     "Every signal with energy in the band, band and number of samples.",
     "Tests compare one Altes signal by shape.",
     [("ambiguity function", PRO + "ambiguity.py:wide_band")],
     "Independent evaluation through geometric sampling and discrete Mellin sums.")

prop("C22", "The scalogram is the squared wavelet transform at the frequencies it returns",
     "The scalogram, for the Morlet or the Mexican hat wavelet, is the squared modulus of the "
     "returned wavelet transform, normalised by the energy of the signal, at geometrically spaced "
     "frequencies between the given bounds and at the given instants; a pulse appears at its own "
     "time and frequency. Bounds left out are read from the signal's spectrum, however narrow.",
     ["inputs", "configurations"],
     "Every signal, instants, band, number of voices and wavelet length.",
     "Tests have one call, with a loose comparison.",
     [("scalogram", PRO + "affine.py:Scalogram"), ("base", PRO + "affine.py:AffineDistribution")],
     "Direct wavelet correlations.")

prop("C23", "Bertrand, Unterberger and D-Flandrin distributions equal their definitions",
     "The Bertrand, active and passive Unterberger, and D-Flandrin distributions, of a signal or "
     "of a pair of signals, are the documented affine integrals over dilated spectra, normalised "
     "as documented, at the geometric frequencies they return and at the given instants; a pulse "
     "appears at its own time and frequency. The dilations of the affine kernels (lambdak) are "
     "those of their index, one at zero included.",
     ["inputs", "configurations"],
     "Every signal or pair, instants, band and number of voices, row or column vectors.",
     "Tests have no call of some of them, one loose call of others.",
     [("distributions", PRO + "affine.py:BertrandDistribution, UnterbergerDistribution, DFlandrinDistribution"),
      ("base", PRO + "affine.py:AffineDistribution")],
     "Independent evaluation of the same discretisation (geometric Mellin grid).")

prop("C24", "Frequency reassignment moves energy to its centroid and loses none",
     "The reassigned pseudo Wigner-Ville, pseudo Margenau-Hill and pseudo Page distributions "
     "return the distribution itself, its reassigned version and the displacement field; each "
     "value above the threshold moves along its column to the rounded local centroid, values at "
     "or below it stay, and the sum is conserved. A tone ends up on its own bin.",
     ["inputs", "configurations"],
     "Every signal, selection of instants, number of bins and window.",
     "Most of these raised on every input; no test calls them.",
     [("pseudo Wigner-Ville", PRO + "reassigned.py:pseudo_wigner_ville"),
      ("pseudo Margenau-Hill", PRO + "reassigned.py:pseudo_margenau_hill"),
      ("pseudo Page", PRO + "reassigned.py:pseudo_page")],
     "Centroids that lie on a rounding tie are excepted, within rounding error.")

prop("C25", "Time-frequency reassignment moves energy to its centroid and loses none",
     "The reassigned spectrogram, smoothed pseudo Wigner-Ville distribution and Morlet scalogram "
     "return the distribution itself, its reassigned version and the displacement field; each "
     "value above the threshold moves to the rounded local centroid in time and in frequency, "
     "times being clipped to the signal's instants, and the sum is conserved. Impulses and tones "
     "concentrate on their own instant and bin, and irregular instants are refused.",
     ["inputs", "configurations"],
     "Every signal, regular selection of instants, number of bins and windows.",
     "Tests have one call, compared by similarity with an ideal shape.",
     [("spectrogram", PRO + "reassigned.py:spectrogram"),
      ("smoothed pseudo Wigner-Ville", PRO + "reassigned.py:smoothed_pseudo_wigner_ville"),
      ("Morlet scalogram", PRO + "reassigned.py:morlet_scalogram")],
     "Centroids that lie on a rounding tie are excepted, within rounding error.")

prop("C26", "Gabor coefficients, with their dual window, reconstruct the signal",
     "The Gabor representation returns the squared modulus of the coefficients' representation, "
     "the coefficients and the biorthogonal dual window: the signal is the sum of the synthesis "
     "atoms weighted by the coefficients, for every admissible number of coefficients in time, "
     "degree of oversampling and window.",
     ["inputs", "configurations"],
     "Every signal length with its divisors, oversampling, window.",
     "Tests check output shapes for one signal.",
     [("Gabor representation", PRO + "linear.py:gabor")],
     "Reconstruction is checked where the window spans a frame (conditioning bound).")

prop("C27", "Hough transform finds lines; Renyi information measures component counts",
     "The Hough transform sums the image along the straight line of each radius and angle it "
     "returns, so that a straight line is its largest entry. The Renyi information of order alpha "
     "is the documented logarithm of the normalised distribution, does not depend on its scale, "
     "leaves its arguments alone, and grows by log2(k) bits for k disjoint copies.",
     ["inputs", "configurations"],
     "Every image, number of radii and angles; every distribution, axes and order.",
     "Tests have one image and one distribution.",
     [("Hough", PRO + "postprocessing.py:hough_transform"),
      ("Renyi", PRO + "postprocessing.py:renyi_information")],
     "Line sums where rounding decides the pixel are excepted.")

prop("C28", "Ideal representations, densities and ridges follow the laws they are given",
     "The ideal representation has ones exactly in the cells of the given instantaneous "
     "frequency laws; Friedman's density counts, per column, the significant points by reassigned "
     "frequency, and sums to one; ridges are exactly the points whose displacement is nil and whose "
     "energy is above the threshold, in every column.",
     ["inputs", "configurations"],
     "Every number of laws, bins and instants; every reassigned field and method name.",
     "Tests have one sinusoidal law and one density.",
     [("ideal", PRO + "postprocessing.py:ideal_tfr"),
      ("Friedman", PRO + "postprocessing.py:friedman_density"),
      ("ridges", PRO + "postprocessing.py:ridges")],
     "Field entries at rounding ties are excepted.")

prop("C29", "Numerical integration and window derivatives are exact where they should be",
     "The two dimensional integral is the trapezoidal integral over the given axes, linear, exact "
     "for bilinear data on any grid. The derivative of a window is its central difference after "
     "removal of its end values and slope, and converges to the analytic derivative of smooth "
     "windows.",
     ["inputs"],
     "Every matrix and axes (irregular too), every window.",
     "Tests integrate one constant.",
     [("integration", PRO + "utils.py:integrate_2d"), ("derivative", PRO + "utils.py:derive_window")],
     "Direct sums.")

prop("C30", "Results depend on nothing but the arguments, whatever was called before",
     "Whatever calls were made before it, in whatever order, a call returns what it returns in a "
     "fresh process, and no call changes its inputs, a result handed out earlier, the state of "
     "the random number generator (noise apart), the floating point error settings or the plotting "
     "defaults. Overwriting a returned result, or the arrays of an object, does not affect later "
     "calls and other objects, and calls that overlap in threads do not disturb each other.",
     ["histories", "inputs"],
     "Every sequence of generator, distribution, post-processing and plotting calls, including "
     "repeated run() on one object and several objects alive at once.",
     "Tests make one call per object and never look at the inputs, earlier results or global "
     "state afterwards.",
     [("state of a distribution object", PRO + "base.py:BaseTFRepresentation"),
      ("linear", PRO + "linear.py:ShortTimeFourierTransform.run, gabor"),
      ("bilinear", PRO + "cohen.py:*.run"), ("affine", PRO + "affine.py:*.run"),
      ("reassigned", PRO + "reassigned.py"), ("post-processing", PRO + "postprocessing.py"),
      ("noise", GEN + "noise.py")],
     "Each operation alone, in a pristine forked process, is the oracle.")

prop("C31", "Plots show the distribution with the axes and labels it was computed on",
     "A plot of a distribution shows exactly the computed values (the documented half of the "
     "spectrum, modulus, threshold), with axes that span the instants and frequencies they belong "
     "to, in the requested kind of display, with the documented labels and title, on the axes "
     "given. The signal and its energy spectrum, and an instantaneous frequency law, are drawn "
     "with the right values when asked for.",
     ["inputs", "configurations"],
     "Every class, kind of plot, threshold, number of bins and combination of documented options.",
     "Tests never look at what a plot contains.",
     [("base", PRO + "base.py:BaseTFRepresentation.plot, _plot_tfr, _plot_signal, "
       "_annotate_title"),
      ("linear", PRO + "linear.py:ShortTimeFourierTransform.plot"),
      ("bilinear", PRO + "cohen.py:*.plot"), ("affine", PRO + "affine.py:*.plot"),
      ("reassigned", PRO + "reassigned.py"), ("frequency law", PRO + "plotifl.py:plotifl")],
     "Matplotlib's Agg objects are read back; no pixels are compared.")

prop("C32", "Every representation puts a component at its own instant and frequency",
     "In every representation, the energy of a pure tone is greatest at the returned frequency "
     "nearest to the tone, that of an impulse at its own instant (counted from one in the "
     "short time Fourier transform, the spectrograms and the smoothed or reassigned "
     "pseudo Wigner-Ville distributions), that of a wave packet at its time and frequency (in the "
     "causal Page distributions up to its duration later), and that "
     "of a linear chirp along its instantaneous frequency. The labels returned (or put on the "
     "axes) are those of the rows and columns of the distribution.",
     ["inputs", "configurations"],
     "Every representation, tone frequency, impulse position, chirp, number of bins and selection "
     "of instants.",
     "Tests compare ideal chirps visually or through one stored image; a shifted axis goes unseen.",
     [("linear", PRO + "linear.py:ShortTimeFourierTransform"),
      ("bilinear", PRO + "cohen.py"), ("affine", PRO + "affine.py"),
      ("reassigned", PRO + "reassigned.py"), ("axes", PRO + "base.py:BaseTFRepresentation")],
     "Peaks are looked for up to the resolution of the window.")

prop("C33", "Representations obey gain, phase, layout and conjugation invariances",
     "Multiplying the signal by a constant multiplies a linear representation by it, and an energy "
     "distribution by its squared modulus; silence gives zeros; a constant phase leaves energy distributions alone "
     "(those that analyse the real part keep a change of sign only, and ignore conjugation). The "
     "result does not depend on the memory layout, orientation (vector, row, column), byte order, "
     "or type of number of the same signal, nor on those of windows, instants, axes, images and laws, "
     "and conjugating the signal reverses the frequency axis. Which points reassignment moves, and "
     "where to, does not depend on a gain or a phase.",
     ["inputs"],
     "Every representation and measure, every signal, gain, phase, layout and number type; every "
     "array argument.",
     "Tests use C-contiguous double precision vectors only.",
     [("signals", PRO + "base.py:BaseTFRepresentation.__init__"),
      ("linear", PRO + "linear.py"), ("bilinear", PRO + "cohen.py"),
      ("affine", PRO + "affine.py"), ("reassigned", PRO + "reassigned.py"),
      ("ambiguity", PRO + "ambiguity.py")],
     "Metamorphic relations between two calls.")

prop("C34", "An argument means the same left out, by position, by name, in any combination",
     "Giving an optional argument the value documented as its default, or passing it by position "
     "rather than by name, does not change the result of any function or distribution, whatever "
     "other options are given. A number means the same as a Python or as a NumPy number (whole ones "
     "as integers or floats where real numbers are expected), and no value of a real option means "
     "something else than those just beside it. Every option has an effect, and every "
     "documented entry point works.",
     ["inputs", "configurations"],
     "Every function and class, every subset of its options, at default and other values, in every "
     "type of number.",
     "Tests call each function with one or two sets of options and never compare them.",
     [("generators", GEN + "frequency_modulated.py:fm*"), ("more generators", GEN + "misc.py"), ("bilinear", PRO + "cohen.py"), ("linear", PRO + "linear.py"),
      ("affine", PRO + "affine.py"), ("reassigned", PRO + "reassigned.py"),
      ("post-processing", PRO + "postprocessing.py"), ("utilities", "tftb/utils.py")],
     "Two entry points that never work are known findings.")


def known_ids():
    import registry
    return [p for ps in registry.MODULES.values() for p in ps]


def main():
    claimed = set(known_ids())
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["row"]["title"]) <= 80, p["row"]["title"]
            fh.write(json.dumps(p["row"]) + "\n")
    checks, missing = [], []
    for p in P:
        pid = p["row"]["id"]
        if pid not in claimed:
            missing.append(dict(property=pid, reason="check not built yet"))
            continue
        cmd = "/opt/venv/bin/python -W ignore harness/run.py %s " % pid
        checks.append(dict(
            property=pid, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
            evidence_file="evidence/%s.json" % pid,
            technique="property-based testing (Hypothesis) against a reference model",
            level="exploration",
            level_note=("Every generated case is compared with an explicit oracle; nothing is "
                        "claimed beyond the cases generated. " + p["note"])))
    assert claimed <= {p["row"]["id"] for p in P}, claimed - {p["row"]["id"] for p in P}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=missing,
                       notes="No hooks: the checks import tftb from /repo's working tree."),
                  fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
