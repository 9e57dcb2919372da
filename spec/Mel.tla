-------------------------------- MODULE Mel --------------------------------
(* Mel bands.  Band m is a triangle between the centres m - 1, m and m + 1;   *)
(* centres are evenly spaced on the mel scale, 2595 log10(1 + f / 700), which *)
(* says that 700 + f is a geometric progression from fmin to fmax.            *)
(* Frequencies are in hundredths of a Hertz, weights in thousandths.          *)
EXTENDS Integers, Sequences
W1 == 1000
Dist(a, b) == IF a > b THEN a - b ELSE b - a
\* a / b in thousandths, 0 <= a <= b
Ratio(a, b) == IF b > 1000000 THEN ((a \div 10) * W1) \div (b \div 10) ELSE (a * W1) \div b
\* frequency of bin k of a transform of n points
BinFreq(k, n, sr) == ((k * sr) \div n) * 100 + (((k * sr) % n) * 100) \div n
\* bins are found with n + 1 points, so a bin that lies a little above the centre may count as the centre
Below(k, n, sr) == ((k * sr) \div (n + 1)) * 100 + (((k * sr) % (n + 1)) * 100) \div (n + 1)
Triangle(f, lo, c, hi) == IF f <= lo \/ f >= hi THEN 0 ELSE IF f <= c THEN Ratio(f - lo, c - lo) ELSE Ratio(hi - f, hi - c)
AtCentre(k, n, sr, c) == Below(k, n, sr) - 2 <= c /\ c <= BinFreq(k, n, sr) + 2
\* weights that bin k may have in the band: at least and at most
Least(k, n, sr, lo, c, hi) == Triangle(BinFreq(k, n, sr), lo, c, hi)
Most(k, n, sr, lo, c, hi) == IF AtCentre(k, n, sr, c) THEN W1 ELSE Triangle(BinFreq(k, n, sr), lo, c, hi)
\* a spectrum of n points holds what the bands need / lacks it
Holds(n, sr, fmin, fmax) == fmin >= 0 /\ 2 * fmax <= 100 * sr
Lacks(n, sr, fmin, fmax) == fmin <= -100 \/ Below(n \div 2 + 1, n, sr) + 100 < fmax
Power(re, im, n) == (re * re + im * im) \div n
=============================================================================
