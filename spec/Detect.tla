------------------------------- MODULE Detect -------------------------------
(* What resdet detects: the measures the methods define on the 2-D DCT of   *)
(* an image, and the result list they determine.                            *)
(*                                                                          *)
(* An image is a record [w, h, c, tol]: c[y][x] (from 1) is its unnormalized*)
(* 2-D DCT-II, scaled to integers, each known to within +-tol.  All measures*)
(* are intervals <<lo, hi>> of counts: comparisons closer than the          *)
(* tolerance may go either way, so rounding in the transform never decides  *)
(* between accepting and rejecting a result.                                *)
EXTENDS Num, TLC, SequencesExt

Methods == {"sign", "mag", "orig", "zerox"}

(* default thresholds as parts per billion of the single precision constant *)
DefThr(m) == CASE m = "sign"  -> [ppb |-> 550000012, p |-> -1, q |-> 1]
               [] m = "mag"   -> [ppb |-> 400000006, p |-> -1, q |-> 1]
               [] m = "orig"  -> [ppb |-> 639999986, p |-> -1, q |-> 1]
               [] m = "zerox" -> [ppb |-> 500000000, p |-> 1, q |-> 2]

Dims == {"w", "h"}
Len1(im, d) == IF d = "w" THEN im.w ELSE im.h     \* length of the dimension
Lines(im, d) == IF d = "w" THEN im.h ELSE im.w    \* number of lines across it
(* coefficient at position x of line j (both from 0) *)
At(im, d, j, x) == IF d = "w" THEN im.c[j + 1][x + 1] ELSE im.c[x + 1][j + 1]

EffRange(m, r) == IF m = "zerox" THEN 1 ELSE r

(* candidate sizes of a dimension of length len *)
Cand(len, r) == IF r < (len + 1) \div 2 THEN r .. (len - r - 1) ELSE {}

(* --- one pair or triple of coefficients: surely / possibly counted ------ *)
SignSure(l, r, t) == (l > t /\ r < -t) \/ (l < -t /\ r > t)
SignPoss(l, r, t) == ~((l > t /\ r > t) \/ (l < -t /\ r < -t))
MagSure(l, r, t) == SignSure(l, r, t) /\ Abs(l) + 3 * t < 2 * Abs(r)
MagPoss(l, r, t) == SignPoss(l, r, t) /\ Abs(l) <= 2 * Abs(r) + 3 * t
ZeroSure(l, c, r, t) == SignSure(l, r, t) /\
  ((c - l > 2 * t /\ r - c > 2 * t) \/ (l - c > 2 * t /\ c - r > 2 * t))
ZeroPoss(l, c, r, t) == SignPoss(l, r, t) /\
  ((c - l >= -2 * t /\ r - c >= -2 * t) \/ (l - c >= -2 * t /\ c - r >= -2 * t))

(* --- counts for one image at size x of dimension d ---------------------- *)
SignCnt(im, d, x, R) ==
  LET n == Lines(im, d)
      Sure == {k \in 0 .. (n * R - 1) :
                 SignSure(At(im, d, k \div R, x - 1 - (k % R)), At(im, d, k \div R, x + 1 + (k % R)), im.tol)}
      Poss == {k \in 0 .. (n * R - 1) :
                 SignPoss(At(im, d, k \div R, x - 1 - (k % R)), At(im, d, k \div R, x + 1 + (k % R)), im.tol)}
  IN <<Cardinality(Sure), Cardinality(Poss)>>

MagCnt(im, d, x, R) ==
  LET n == Lines(im, d)
      Sure == {k \in 0 .. (n * R - 1) :
                 MagSure(At(im, d, k \div R, x - 1 - (k % R)), At(im, d, k \div R, x + 1 + (k % R)), im.tol)}
      Poss == {k \in 0 .. (n * R - 1) :
                 MagPoss(At(im, d, k \div R, x - 1 - (k % R)), At(im, d, k \div R, x + 1 + (k % R)), im.tol)}
  IN <<Cardinality(Sure), Cardinality(Poss)>>

ZeroCnt(im, d, x) ==
  LET n == Lines(im, d)
  IN <<Cardinality({j \in 0 .. (n - 1) : ZeroSure(At(im, d, j, x - 1), At(im, d, j, x), At(im, d, j, x + 1), im.tol)}),
       Cardinality({j \in 0 .. (n - 1) : ZeroPoss(At(im, d, j, x - 1), At(im, d, j, x), At(im, d, j, x + 1), im.tol)})>>

(* sums over the lines of the magnitudes at each position *)
MagSums(im, d) ==
  LET lines == TLCEval([j \in 1 .. Lines(im, d) |-> j - 1])
  IN TLCEval([x \in 0 .. (Len1(im, d) - 1) |-> FoldLeft(LAMBDA s, j : s + Abs(At(im, d, j, x)), 0, lines)])

(* the magnitude condition of orig at x: surely / possibly fulfilled *)
OrigCond(S, x, R, T) ==   \* T bounds the error of left, right and mid
  LET left  == SumTo(S, x - R, x - 1)
      right == SumTo(S, x + 1, x + R)
      mid   == R * S[x]
      lr    == Abs(left - right)
      cond(e) == /\ Min2(left, right) - mid > 2 * e
                 /\ Abs(left - mid) - lr > 4 * e
                 /\ Abs(right - mid) - lr > 4 * e
      Tm == IF T > 0 THEN T ELSE 0
  IN [sure |-> cond(Tm),
      poss |-> IF T = 0 THEN cond(0) ELSE cond(-Tm)]
(* Equal sums (T = 0 and a tie) are decided exactly by integer images only  *)
(* if the transform is exact, so a tie is possible even then.               *)
OrigTie(S, x, R) ==
  LET left  == SumTo(S, x - R, x - 1)
      right == SumTo(S, x + 1, x + R)
      mid   == R * S[x]
      lr    == Abs(left - right)
  IN Min2(left, right) >= mid /\ Abs(left - mid) >= lr /\ Abs(right - mid) >= lr

OrigCnt(im, d, x, R, S) ==
  LET o == OrigCond(S, x, R, R * Lines(im, d) * im.tol)
      c == SignCnt(im, d, x, R)
  IN IF o.sure THEN c
     ELSE IF o.poss \/ OrigTie(S, x, R) THEN <<0, c[2]>>
     ELSE <<0, 0>>

(* counts of one image at every candidate size *)
Counts(im, m, d, r) ==
  LET R == EffRange(m, r)
      cs == Cand(Len1(im, d), R)
  IN CASE m = "sign"  -> [x \in cs |-> SignCnt(im, d, x, R)]
       [] m = "mag"   -> [x \in cs |-> MagCnt(im, d, x, R)]
       [] m = "zerox" -> [x \in cs |-> ZeroCnt(im, d, x)]
       [] m = "orig"  -> LET S == MagSums(im, d) IN [x \in cs |-> OrigCnt(im, d, x, R, S)]

(* the count that corresponds to a confidence of 1 *)
Den(im_w, im_h, m, d, r) == (IF d = "w" THEN im_h ELSE im_w) * EffRange(m, r)

(* accumulation over the frames of a sequence *)
Zero(len, R) == [x \in Cand(len, R) |-> <<0, 0>>]
AddCounts(a, b) == TLCEval([x \in DOMAIN a |-> LET p == a[x]  q == b[x] IN <<p[1] + q[1], p[2] + q[2]>>])

(* --- result lists -------------------------------------------------------- *)
(* A threshold is [ppb, p, q]: parts per billion, and the exact fraction p/q *)
(* if it is one with a small power of two as denominator (p = -1 otherwise). *)
(* exact: the accumulated mean has no rounding (one frame, or fractions of a *)
(* power of two), so that a mean equal to the threshold must be kept.        *)
(* Other fractions are rounded (to single precision in some builds), and so  *)
(* are thresholds: whether a mean that near to the threshold is kept is open. *)
TieTol == 150
MustKeep(cnt, den, thr, exact) ==
  \/ Ppb(cnt, den) > thr.ppb + TieTol
  \/ thr.p = 0
  \/ thr.p > 0 /\ exact /\ cnt * thr.q >= thr.p * den
MayKeep(cnt, den, thr, exact) ==
  IF thr.p >= 0 /\ exact THEN cnt * thr.q >= thr.p * den
  ELSE Ppb(cnt, den) + TieTol >= thr.ppb

(* Which entries does the compression filter keep?  What the documentation   *)
(* says: results at multiples of len/2^v are removed.                        *)
NearestMult(x, len, v) ==   \* is x = round(k*len/2^v) for some k?
  IF v >= 12 THEN TRUE      \* only used with len < 2048: every size is one
  ELSE \E k \in {(x * Pow2(v)) \div len, (x * Pow2(v)) \div len + 1} :
         (2 * k * len + Pow2(v)) \div (2 * Pow2(v)) = x
FilterDoc(x, len, R, v)  == v = 0 \/ ~NearestMult(x, len, v)
(* What the code does (see known findings): the offset from the first        *)
(* candidate must be a multiple of 2^v.                                      *)
FilterCode(x, len, R, v) == v = 0 \/ (IF v >= 12 THEN x = R ELSE (x - R) % Pow2(v) = 0)

(* Is l, a sequence of <<size, confidence in ppb>>, a correct list for a     *)
(* dimension of length len, given accumulated counts acc out of den?         *)
(* keep(x): does the compression filter keep x?                              *)
(* t: how far off the confidences may be, in ppb *)
ListTol(l, len, acc, den, thr, exact, keep(_), t) ==
  LET n == Len(l)
      body == 1 .. (n - 1)
      idx == {l[k][1] : k \in body}
  IN /\ n >= 1
     /\ l[n] = <<len, -1000000000>>
     /\ Cardinality(idx) = n - 1
     /\ idx \subseteq {x \in DOMAIN acc : keep(x)}
     /\ \A k \in body :
          LET x == l[k][1]  c == l[k][2]
          IN /\ c >= 0 /\ c <= 1000000000
             /\ c >= Ppb(acc[x][1], den) - t
             /\ c <= Ppb(acc[x][2], den) + t
             /\ MayKeep(acc[x][2], den, thr, exact)
             /\ k > 1 => l[k - 1][2] >= c
     /\ \A x \in DOMAIN acc :
          keep(x) /\ MustKeep(acc[x][1], den, thr, exact) => x \in idx

ListOK(l, len, acc, den, thr, exact, keep(_)) == ListTol(l, len, acc, den, thr, exact, keep, 150)

(* The list in the exact case, in a canonical order; used by models. *)
RECURSIVE SortDesc(_, _)
SortDesc(S, acc) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE y \in S : \A z \in S : acc[y][1] > acc[z][1] \/ (acc[y][1] = acc[z][1] /\ y <= z)
       IN <<x>> \o SortDesc(S \ {x}, acc)
TheList(len, acc, den, thr, exact, keep(_)) ==
  LET order == SortDesc({x \in DOMAIN acc : keep(x) /\ MayKeep(acc[x][2], den, thr, exact)}, acc)
  IN [k \in 1 .. Len(order) |-> <<order[k], Ppb(acc[order[k]][1], den)>>] \o <<<<len, -1000000000>>>>
=============================================================================
