------------------------------ MODULE MCDetect ------------------------------
(* All small spectra: what the measures of Detect satisfy on each of them,   *)
(* and the spectra themselves, printed to be analyzed by the library         *)
(* (checks A01, A02, A03, A10).                                              *)
EXTENDS Detect

CONSTANTS Shapes,     \* <<w, h, set of values>>
          Printing
VARIABLE im

Image(w, h, c) == [w |-> w, h |-> h, c |-> c, tol |-> 0, bad |-> FALSE]
Shapes1 == { <<3, 1, {-6, -3, -2, -1, 0, 1, 2, 3, 6}>>, <<5, 1, {-4, -1, 1, 2}>>, <<1, 5, {-3, 0, 1, 2}>>, <<3, 2, {-3, -1, 2}>>, <<2, 3, {-2, 1, 3}>>, <<4, 1, {-3, -1, 0, 1, 4}>>,
             <<6, 1, {-3, 1, 2}>>, <<7, 1, {-1, 2}>>, <<1, 1, {-1, 0, 3}>>, <<2, 2, {-1, 1}>>, <<1, 2, {-1, 1}>> }
Shapes2 == Shapes1 \cup { <<3, 3, {-3, 1, 2}>>, <<5, 2, {-2, 3, 1}>>, <<7, 1, {-3, 1, 2, 0}>>, <<1, 7, {-3, -1, 2}>>, <<9, 1, {-3, 1, 2}>>, <<4, 2, {-2, 1, 5}>> }

(* a coefficient at a time, so that the work is shared among workers *)
Init == \E sh \in Shapes : im = [sh |-> sh, v |-> <<>>]
Next == /\ Len(im.v) < im.sh[1] * im.sh[2]
        /\ \E x \in im.sh[3] : im' = [im EXCEPT !.v = Append(@, x)]
Spec == Init /\ [][Next]_im
Done == Len(im.v) = im.sh[1] * im.sh[2]
I == LET w == im.sh[1] IN Image(w, im.sh[2], [y \in 1 .. im.sh[2] |-> [x \in 1 .. w |-> im.v[(y - 1) * w + x]]])
Emit == Done /\ Printing => PrintT("SPECTRUM " \o ToString(im.sh[1]) \o " " \o ToString(im.sh[2]) \o " " \o ToString(im.v))

Times_(k, i) == [i EXCEPT !.c = [y \in 1 .. i.h |-> [x \in 1 .. i.w |-> k * i.c[y][x]]]]
Transposed(i) == Image(i.h, i.w, [y \in 1 .. i.w |-> [x \in 1 .. i.h |-> i.c[x][y]]])
Reversed(i) == [i EXCEPT !.c = [y \in 1 .. i.h |-> [x \in 1 .. i.w |-> i.c[y][i.w + 1 - x]]]]
Ranges == 1 .. 3
Full(m, d, r) == Den(I.w, I.h, m, d, r)
All(P(_, _, _)) == \A m \in Methods, d \in Dims, r \in Ranges : P(m, d, r)

(* confidences lie between 0 and 1 *)
Bounds == Done => LET i == I  P(m, d, r) == LET c == Counts(i, m, d, r) IN
     \A x \in DOMAIN c : 0 <= c[x][1] /\ c[x][1] <= c[x][2] /\ c[x][2] <= Full(m, d, r)  IN All(P)
(* candidates leave room for the range on both sides *)
Room == Done => LET i == I  P(m, d, r) == \A x \in DOMAIN Counts(i, m, d, r) : x - EffRange(m, r) >= 0 /\ x + EffRange(m, r) < Len1(i, d) /\ x > 0  IN All(P)
(* neither scale nor sign matter, nor which way around an image is *)
Scale == Done => LET i == I  P(m, d, r) == \A k \in {-1, 2, -3} : Counts(Times_(k, i), m, d, r) = Counts(i, m, d, r)  IN All(P)
Transpose == Done => LET i == I  P(m, d, r) == Counts(Transposed(i), m, IF d = "w" THEN "h" ELSE "w", r) = Counts(i, m, d, r)  IN All(P)
(* every measure but mag looks left and right alike *)
Mirror == Done => LET i == I IN \A m \in Methods \ {"mag"}, r \in Ranges :
  LET a == Counts(i, m, "w", r)  b == Counts(Reversed(i), m, "w", r) IN
  \A x \in DOMAIN a : i.w - 1 - x \in DOMAIN b /\ b[i.w - 1 - x] = a[x]
(* what the other methods count, sign counts *)
Within(a, b) == \A x \in DOMAIN a : a[x][1] <= b[x][1] /\ a[x][2] <= b[x][2]
Weaker == Done => LET i == I IN \A d \in Dims, r \in Ranges :
  /\ Within(Counts(i, "mag", d, r), Counts(i, "sign", d, r))
  /\ Within(Counts(i, "orig", d, r), Counts(i, "sign", d, r))
  /\ r = 1 => Within(Counts(i, "zerox", d, r), Counts(i, "sign", d, r))
(* a spectrum that is odd about x over the whole range has confidence 1 there, *)
(* and in zerox and orig so it has if it crosses or dips                       *)
OddAbout(i, d, x, r) == \A j \in 0 .. (Lines(i, d) - 1), k \in 1 .. r : At(i, d, j, x - k) = -At(i, d, j, x + k) /\ At(i, d, j, x + k) # 0
Dips(i, d, x, r) == \A j \in 0 .. (Lines(i, d) - 1), k \in 1 .. r : Abs(At(i, d, j, x)) < Abs(At(i, d, j, x + k))
Odd == Done => LET i == I IN \A m \in Methods, d \in Dims, r \in Ranges :
  LET c == Counts(i, m, d, r)  R == EffRange(m, r) IN
  \A x \in DOMAIN c : OddAbout(i, d, x, R) /\ (m \in {"sign", "mag"} \/ Dips(i, d, x, R)) => c[x] = <<Full(m, d, r), Full(m, d, r)>>
(* knowing coefficients less exactly only widens what is allowed *)
Tolerance == Done => LET i == I IN \A m \in Methods, d \in Dims, r \in Ranges, t \in {1, 2} :
  LET a == Counts([i EXCEPT !.tol = t - 1], m, d, r)  b == Counts([i EXCEPT !.tol = t], m, d, r)
  IN \A x \in DOMAIN a : b[x][1] <= a[x][1] /\ a[x][2] <= b[x][2]
(* the list an ideal library gives is a right one; a higher threshold only takes from it *)
Thresholds == <<[ppb |-> 0, p |-> 0, q |-> 1], [ppb |-> 500000000, p |-> 1, q |-> 2], [ppb |-> 1000000000, p |-> 1, q |-> 1]>>
Elements(l) == {l[k] : k \in 1 .. Len(l)}
List == Done => LET i == I IN \A m \in Methods, d \in Dims, r \in {1, 2} :
  LET c == Counts(i, m, d, r)
      K(x) == TRUE
      L(k) == TheList(Len1(i, d), c, Full(m, d, r), Thresholds[k], TRUE, K)
  IN (\A x \in DOMAIN c : c[x][1] = c[x][2]) =>
     /\ \A k \in 1 .. 3 : ListOK(L(k), Len1(i, d), c, Full(m, d, r), Thresholds[k], TRUE, K)
     /\ Elements(L(3)) \subseteq Elements(L(2)) /\ Elements(L(2)) \subseteq Elements(L(1))
     /\ L(2) # L(1) => ~ListOK(L(2), Len1(i, d), c, Full(m, d, r), Thresholds[1], TRUE, K) /\ ~ListOK(L(1), Len1(i, d), c, Full(m, d, r), Thresholds[2], TRUE, K)

(* the documented filter removes by position alone, and higher values of it remove more *)
ASSUME \A len \in 1 .. 70, v \in 1 .. 11 : \A x \in 1 .. (len - 1) :
   /\ FilterDoc(x, len, 1, v + 1) => FilterDoc(x, len, 1, v)
   /\ FilterDoc(x, len, 1, v) = FilterDoc(x, len, 5, v)
   /\ FilterDoc(x, len, 1, 0)
ASSUME \A len \in 2 .. 70 : len % 2 = 0 => ~FilterDoc(len \div 2, len, 1, 1)
(* parts per billion *)
ASSUME \A d \in 1 .. 60 : \A n \in 0 .. d : LET p == Ppb(n, d) IN p \in 0 .. 1000000000 /\ (p = 1000000000) = (n = d) /\ (n > 0 => p > Ppb(n - 1, d))
=============================================================================
