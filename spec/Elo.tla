----------------------------------- MODULE Elo -----------------------------------
(***************************************************************************)
(* The rating figures of a match result of w wins, l losses and d draws,   *)
(* in the logistic model: the Elo difference is 400 times the common       *)
(* logarithm of the odds scored; its error margin is half the width of the *)
(* 95% interval of the score, both ends turned into Elo; the likelihood of *)
(* superiority is the normal distribution at (w - l) / sqrt(w + l).        *)
(*                                                                         *)
(* Everything is in whole numbers: logarithms and probabilities in         *)
(* millionths, ratings in hundredths, percentages in hundredths.  The      *)
(* logarithms are a table; that it is one of logarithms, and which, is     *)
(* checked by the assumptions below (products, ten, order).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Tables == JsonDeserialize("tables.json")
LogT == Tables.log
PhiT == Tables.phi
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Least(a, b) == IF a < b THEN a ELSE b
Near(x, y, tol) == Abs(x - y) <= tol

ASSUME LogT[1] = 0 /\ LogT[10] = 1000000
ASSUME \A a \in 1..1000 : \A b \in 1..(1000 \div a) : Near(LogT[a * b], LogT[a] + LogT[b], 2)
ASSUME \A a \in 1..999 : LogT[a] < LogT[a + 1]
\* the density (differences of the distribution) falls as exp(-x^2/2): its logarithm has constant second differences; here only its shape
ASSUME PhiT[1] = 500000 /\ \A i \in 1..600 : PhiT[i] <= PhiT[i + 1] /\ PhiT[i + 1] < 1000001
ASSUME \A i \in 2..600 : PhiT[i + 1] - PhiT[i] <= PhiT[i] - PhiT[i - 1] + 2
ASSUME Near(PhiT[101], 841345, 1) /\ Near(PhiT[197], 975002, 1) /\ Near(PhiT[301], 998650, 1)

\* the common logarithm of n >= 1 in millionths; between table entries on the straight line (off by less than 6)
RECURSIVE Lg(_)
Lg(n) == IF n <= 100 THEN LogT[n * 10] - 1000000
         ELSE IF n <= 1000 THEN LogT[n]
         ELSE LET z == IF n < 10000 THEN 10 ELSE IF n < 100000 THEN 100 ELSE IF n < 1000000 THEN 1000 ELSE IF n < 10000000 THEN 10000
                       ELSE IF n < 100000000 THEN 100000 ELSE 1000000
                  q == n \div z
              IN LogT[q] + (IF q = 1000 THEN 0 ELSE ((LogT[q + 1] - LogT[q]) * ((100 * (n % z)) \div z)) \div 100) + Lg(z)
\* the whole part of the square root
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
ISqrt(n) == Root(n, 0, 46340)

\* --- the figures ------------------------------------------------------------------
Games(w, l, d) == w + l + d
Points(w, d) == 2 * w + d                      \* in half points
\* 400 log10(a / b) in hundredths
Elo400(a, b) == LET x == 4 * (Lg(a) - Lg(b)) IN IF x >= 0 THEN (x + 50) \div 100 ELSE 0 - ((50 - x) \div 100)
Rated(w, l, d) == Points(w, d) > 0 /\ Points(l, d) > 0
EloDiff(w, l, d) == Elo400(Points(w, d), Points(l, d))

\* 2 n^2 (score) = n Points; its deviation is the root of this
Spread(w, l, d) ==
  LET n == Games(w, l, d)
      a == Points(w, d)
  IN w * (2 * n - a) * (2 * n - a) + l * a * a + d * (n - a) * (n - a)
\* how finely the score is measured: one point per game is Whole
Fine(n) == IF n <= 20 THEN 10000 ELSE IF n <= 60 THEN 1000 ELSE IF n <= 200 THEN 100 ELSE 10
Whole(w, l, d) == LET n == Games(w, l, d) IN 2 * n * n * Fine(n)
Middle(w, l, d) == LET n == Games(w, l, d) IN n * Points(w, d) * Fine(n)
\* z standard deviations (z in thousandths) of the score
Deviation(w, l, d, z) ==
  LET v == Spread(w, l, d)
      r == IF v < 200000 THEN ISqrt(v * 10000) ELSE IF v < 20000000 THEN ISqrt(v * 100) * 10 ELSE ISqrt(v) * 100     \* 100 times the root
      x == r * (Fine(Games(w, l, d)) \div 10)
  IN ((x \div 100) * z) \div 100
Low(w, l, d, z) == Middle(w, l, d) - Deviation(w, l, d, z)
High(w, l, d, z) == Middle(w, l, d) + Deviation(w, l, d, z)
HasMargin(w, l, d, z) == Low(w, l, d, z) > 0 /\ High(w, l, d, z) < Whole(w, l, d)
Margin(w, l, d, z) ==
  LET h == High(w, l, d, z)
      o == Low(w, l, d, z)
      t == Whole(w, l, d)
  IN (Elo400(h, t - h) - Elo400(o, t - o)) \div 2
\* a margin m in hundredths (-1: there is none) is right; 95% is 1.96 deviations, computed to within a few thousandths
MarginOk(w, l, d, m, tol) ==
  IF ~HasMargin(w, l, d, 1950) THEN m = -1
  ELSE IF m = -1 THEN ~HasMargin(w, l, d, 1965)
  ELSE /\ m >= Margin(w, l, d, 1950) - tol
       /\ HasMargin(w, l, d, 1965) => m <= Margin(w, l, d, 1965) + tol

\* the normal distribution at a / sqrt(b), in hundredths of a percent, between table entries on the straight line
Superior(a, b) ==
  LET x == 10 * ((Abs(a) * 1000000) \div (IF b < 2100 THEN ISqrt(b * 1000000) ELSE ISqrt(b * 10000) * 10))         \* in ten-thousandths
      i == x \div 100
      p == IF i >= 600 THEN 1000000 ELSE PhiT[i + 1] + ((PhiT[i + 2] - PhiT[i + 1]) * (x % 100)) \div 100
  IN IF a >= 0 THEN p \div 100 ELSE (1000000 - p) \div 100
LosOk(w, l, x) == Near(x, Superior(w - l, w + l), 8)
Ratio(a, b, x) == Near(x * b, 10000 * a, b)    \* x is a / b in hundredths of a percent

\* figures as printed with the result, in tenths: <<difference, margin, superiority, draws>>
PrintedOk(w, l, d, q) ==
  /\ Near(10 * q[1], EloDiff(w, l, d), 9)
  /\ MarginOk(w, l, d, IF q[2] = -1 THEN -1 ELSE 10 * q[2], 15)
  /\ Near(10 * q[3], Superior(w - l, w + l), 14)
  /\ Near(10 * q[4] * Games(w, l, d), 10000 * d, 6 * Games(w, l, d))
===============================================================================
