"""Emit known_findings.json (development helper; never run by a check)."""
import json
FIXED = """bd11d57 C24 frequency axis of length n_fbins-1 for odd n_fbins
7cfac1c C03 a second run() accumulated on top of the first result
277a669 C02 plot() overwrote the representation, the frequencies and returned arrays
a832ec3 C09 Scalogram with n_voices given / repeated run / wavelet transform misaligned
f186d4d C20 affine distributions read an attribute that was never set
07671d3 C21 Unterberger passive form indexed one sample off
2058b09 C21 Mellin transform used an abscissa vector of a different length
6044ea6 C21 Wigner-Ville Nyquist-lag branch crashed on a float index
18fbedb C24 pseudo Wigner-Ville was returned complex and its frequencies were not k/(2n)
919800f C27 Page, pseudo Page and Margenau-Hill rows did not match their lags
4cf2525 C27 pseudo Margenau-Hill was returned complex, with shifted lags
22d5ffe C26 smoothed pseudo Wigner-Ville wrote lags in the wrong rows
663af71 C16 STFT and spectrogram windows were not centred on the instants (sample -1 used)
e4e9e76 C20 reassigned methods called scipy.signal.hamming, which does not exist
7521bc4 C17 reassigned pseudo Wigner-Ville displaced every cell by one bin
8b91896 C17 reassigned pseudo Margenau-Hill crashed / displaced cells
974d581 C17 reassigned pseudo Page crashed / displaced cells
2aecf4d C17 reassigned Morlet scalogram addressed samples outside the record
7c2ca8f C17 reassigned smoothed pseudo Wigner-Ville displaced cells
a8b6a0d C17 reassigned spectrogram used a wrapped-around sample
8380e45 C01 renyi_information modified its argument
e74f116 C09 hough_transform returned a rho axis of the wrong length
7397c8c C41 ridges skipped columns and used unbound names
d2a124b C21 derive_window of a length-1 window was NaN
e91bde2 C37 gabor dual-frame grid shape mismatch
48ef648 C31 locfreq failed for odd lengths
347ad3f C18 loctime mishandled column vectors
f149e53 C14 fmconst divided by a sample addressed with a fractional/out-of-range index
7e5967a C21 fmlin(1) divided by zero
a3d1a9b C14 fmpar phase was not the integral of the returned law
1a18ef2 C14 fmsin phase reference was inconsistent with the returned law
17f6169 C18 fmodany accepted laws and origins outside the documented domain
c344107 C13 amexpos unilateral returned NaN far from the origin
735d935 C21 keying generators failed for one-sample components
9f5e699 C10 anafsk/anaqpsk returned more than n_points samples
b5ba578 C21 anasing frequency grid length mismatch
dc47150 C21 atoms returned a matrix instead of a vector
76f36d6 C10 doppler amplitude law had the wrong length for f0 = 0
910bfde C10 klauder returned n_points - 1 samples for odd n_points
b59ab4a C21 gdpower of degree 1 failed
09c6b72 C10 noise generators failed for n_points <= 2
6bd6fe3 C10 dopnoise returned n_points + 1 samples
3095e76 C21 scale failed for odd lengths
6d93f12 C40 scale analysed a band shifted one step below the requested one
120c74b C40 lambdak was NaN at u = 0
f6fb3e9 C21 reassigned Morlet scalogram and smoothed pseudo Wigner-Ville failed for a single instant
4019fdc C21 fmpower was infinite/NaN at its first sample and failed for integer degrees
c3dbc55 C42 contour plots beside the signal failed unless the representation has one row per sample
e51b638 C42 surface and wireframe plots failed unless the representation has one row per sample
9d3308a C42 the Page plot drew half of the rows over the whole frequency range
3c8a8ca C42 the Margenau-Hill plot started at time 0 whatever the first instant
0e51315 C42 plot(ax=...) drew on a new figure instead of the given axes
a95a886 C42 plot(kind='contour', levels=...) ignored the levels
3409ef9 C42 plot(grid=...) handed the option to the drawing function, which failed
7e7c443 C42 the spectrum beside an affine representation was reversed, drawn at wrong frequencies, and failed for few voices
54be3ce C42 contour and surface plots of affine representations were drawn at linearly spaced frequencies, those of the scalogram at 0..0.5
519e7ae C35 the scalogram ignored the instants it was asked for
d5b1617 C34 affine distributions scaled by the energy in a band measured on the requested instants, not on the signal
b0135f9 C42 plot(sqmod=False) of Page representations squared the picture all the same
cf851ae C21 nearest_odd failed on the sequences its documentation gives as example
7f842c0 C21 nextpow2 failed on the arrays its documentation gives as example
0f2a736 C21 izak indexed a one-dimensional record by two indices
7f775c5 C20 modulo took the real residue of a complex array as soon as one element was real
54b1a55 C36 the default band of the wide-band ambiguity function came from time samples instead of the spectrum""".splitlines()
FIND = []


def F(prop, key, what):
    FIND.append({"property": prop, "key": key, "what": what})


AN = "tftb/generators/analytic_signals.py:anasing"
F("C21", "completes|anasing{n_points=1}|" + AN, "anasing(1) raises ValueError (negative linspace count)")
for n in (1, 2, 3):
    F("C21", "finite-result|anasing{n_points=%d}|%s" % (n, AN), "anasing(%d) is NaN: no frequency bin, 0/0 normalisation" % n)
F("C21", "finite-result|klauder{n_points=1}|tftb/generators/misc.py:klauder", "klauder(1) is NaN (0/0 normalisation)")
for n in (1, 2):
    F("C21", "finite-result|gdpower{n_points=%d}|tftb/generators/misc.py:gdpower" % n, "gdpower(%d) is NaN (0/0 normalisation)" % n)
F("C21", "finite-result|dopnoise{n_points=1}|tftb/generators/noise.py:dopnoise", "dopnoise(1, ...) is NaN (0/0 normalisation)")
F("C21", "completes|affine.smoothed_pseudo_wigner{any}|tftb/processing/affine.py:smoothed_pseudo_wigner",
  "affine.smoothed_pseudo_wigner always fails (float array size, float slice bounds, mismatched lengths)")
F("C21", "completes|gabor{n_coeff=len(signal)}|tftb/processing/linear.py:gabor",
  "gabor(signal, n_coeff=len(signal)) writes its window past the end of the record")
for c in ("BertrandDistribution", "DFlandrinDistribution", "UnterbergerDistribution", "Scalogram"):
    F("C21", "completes|%s{len(timestamps)=1}|tftb/processing/affine.py:%s" % (c, c),
      "%s with a single time instant fails: integrate_2d needs the spacing of two instants" % c)
for a in ("a1", "a2"):
    F("C39", "argument-used|noisecg{%s}|tftb/generators/noise.py:noisecg" % a,
      "noisecg documents %s as a filter coefficient and ignores it" % a)
json.dump({"findings": FIND, "fixed": ["fixed: property=%s %s %s" % (l.split()[1], l.split()[0], " ".join(l.split()[2:])) for l in FIXED]},
          open("/verif/known_findings.json", "w"), indent=1)
