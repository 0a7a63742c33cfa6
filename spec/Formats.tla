------------------------------ MODULE Formats -------------------------------
(* The byte grammar of the formats resdet reads natively.  For a sequence   *)
(* of bytes, what must opening it and reading its frames give?              *)
(*                                                                          *)
(* Three classes of headers: those that must be accepted ("ok"), those that *)
(* must be rejected ("err"), and those on which nothing is promised ("any": *)
(* signs, numbers over nine digits, unusual but harmless syntax).           *)
EXTENDS Num, TLC

Byte(b, i) == IF i <= Len(b) THEN b[i] ELSE -1     \* -1: end of file
IsWs(c) == c \in {32, 9, 10, 11, 12, 13}
IsDigit(c) == c >= 48 /\ c <= 57

RECURSIVE SkipWs(_, _)
SkipWs(b, i) == IF IsWs(Byte(b, i)) THEN SkipWs(b, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(b, i) == IF IsDigit(Byte(b, i)) THEN SkipDigits(b, i + 1) ELSE i
RECURSIVE SkipZeros(_, _)
SkipZeros(b, i) == IF Byte(b, i) = 48 THEN SkipZeros(b, i + 1) ELSE i
(* first position of c at or after i, 0 if there is none *)
RECURSIVE Find(_, _, _)
Find(b, c, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = c THEN i ELSE Find(b, c, i + 1)
RECURSIVE SkipToken(_, _)
SkipToken(b, i) == IF Byte(b, i) = -1 \/ IsWs(Byte(b, i)) THEN i ELSE SkipToken(b, i + 1)

RECURSIVE NumVal(_, _, _, _)
NumVal(b, i, j, acc) == IF i >= j THEN acc ELSE NumVal(b, i + 1, j, acc * 10 + b[i] - 48)
Big == 2000000000
Number(b, i, j) ==   \* the number written in b[i..j-1]
  LET z == SkipZeros(b, i) IN IF j - z > 9 THEN Big ELSE IF z >= j THEN 0 ELSE NumVal(b, z, j, 0)

(* an unsigned number after optional space *)
Uint(b, i) ==
  LET s == SkipWs(b, i)  c == Byte(b, s)
  IN IF IsDigit(c) THEN [st |-> "ok", v |-> Number(b, s, SkipDigits(b, s)), next |-> SkipDigits(b, s)]
     ELSE [st |-> IF c \in {43, 45, 35} THEN "any" ELSE "err", v |-> 0, next |-> s]   \* + - #

(* a decimal number after optional space; only its sign and being nonzero matter *)
FloatChars == {43, 45, 46} \cup (48 .. 57) \cup (65 .. 90) \cup (97 .. 122) \cup {40, 41, 95}
IsSimpleDecimal(b, i, j) ==   \* [+-]digits[.digits]
  LET s == IF Byte(b, i) \in {43, 45} THEN i + 1 ELSE i
      d == SkipDigits(b, s)
      f == IF Byte(b, d) = 46 THEN SkipDigits(b, d + 1) ELSE d
  IN s < d /\ f = j /\ (Byte(b, d) = 46 => f > d + 1)
Decimal(b, i) ==
  LET s == SkipWs(b, i)  j == SkipToken(b, s)
  IN IF s = j \/ Byte(b, j) = -1 THEN [st |-> "err", neg |-> FALSE, next |-> s]    \* nothing, or cut short
     ELSE IF IsSimpleDecimal(b, s, j) /\ \E k \in s .. (j - 1) : b[k] \in 49 .. 57
       THEN [st |-> "ok", neg |-> b[s] = 45, next |-> j]
     ELSE IF b[s] \notin FloatChars THEN [st |-> "err", neg |-> FALSE, next |-> s]
     ELSE IF \A k \in s .. (j - 1) : b[k] \in FloatChars THEN [st |-> "any", neg |-> FALSE, next |-> j]
     ELSE [st |-> "err", neg |-> FALSE, next |-> j]

Bad(st) == [st |-> st, w |-> 0, h |-> 0, mx |-> 0, bw |-> 0, kind |-> 0, le |-> FALSE, next |-> 0, uv |-> 0]
(* an error anywhere makes an error of it unless something before it was "any" *)
RECURSIVE FirstBad(_)
FirstBad(s) == IF s = <<>> THEN "ok" ELSE IF Head(s) # "ok" THEN Head(s) ELSE FirstBad(Tail(s))

(* comment lines at i; 0 if the file ends in one *)
RECURSIVE SkipComments(_, _)
SkipComments(b, i) ==
  IF Byte(b, i) # 35 THEN i
  ELSE LET n == Find(b, 10, i) IN IF n = 0 THEN 0 ELSE SkipComments(b, n + 1)

(* After the two bytes of the magic at i-2: space and comments.  0: cut short. *)
AfterMagic(b, i) ==
  LET s == SkipWs(b, i)
      c == IF s > Len(b) THEN 0 ELSE SkipComments(b, s)
  IN IF c = 0 \/ c > Len(b) THEN 0 ELSE c

(* --- PGM ------------------------------------------------------------------ *)
PgmHeader(b) ==
  IF ~(Byte(b, 1) = 80 /\ Byte(b, 2) = 53) THEN Bad("err")
  ELSE IF Byte(b, 3) = 35 \/ IsDigit(Byte(b, 3)) THEN Bad("any")
  ELSE IF AfterMagic(b, 3) = 0 THEN Bad("err")
  ELSE LET w == Uint(b, AfterMagic(b, 3))
           h == Uint(b, w.next)
           m == Uint(b, h.next)
           st == FirstBad(<<w.st, h.st, m.st>>)
           c == Byte(b, m.next)
       IN IF st # "ok" THEN Bad(st)
          ELSE IF c = 35 THEN Bad("any")
          ELSE IF ~IsWs(c) THEN Bad("err")
          ELSE IF w.v = 0 \/ h.v = 0 \/ m.v = 0 \/ m.v > 255 THEN Bad("err")
          ELSE IF w.v = Big \/ h.v = Big THEN Bad("big")
          ELSE [Bad("ok") EXCEPT !.w = w.v, !.h = h.v, !.mx = m.v, !.bw = 1, !.next = m.next + 1]

(* --- PFM ------------------------------------------------------------------ *)
PfmHeader(b, i) ==
  IF ~(Byte(b, i) = 80 /\ Byte(b, i + 1) \in {102, 70}) THEN Bad("err")
  ELSE IF Byte(b, i + 2) = 35 \/ IsDigit(Byte(b, i + 2)) THEN Bad("any")
  ELSE IF AfterMagic(b, i + 2) = 0 THEN Bad("err")
  ELSE LET w == Uint(b, AfterMagic(b, i + 2))
           h == Uint(b, w.next)
           s == Decimal(b, h.next)
           st == FirstBad(<<w.st, h.st, s.st>>)
       IN IF st # "ok" THEN Bad(st)
          ELSE IF ~IsWs(Byte(b, s.next)) THEN Bad("err")
          ELSE IF w.v = 0 \/ h.v = 0 THEN Bad("err")
          ELSE IF w.v = Big \/ h.v = Big THEN Bad("big")
          ELSE [Bad("ok") EXCEPT !.w = w.v, !.h = h.v, !.kind = b[i + 1], !.le = s.neg, !.next = s.next + 1]

(* --- Y4M ------------------------------------------------------------------ *)
Y4mMagic == <<89, 85, 86, 52, 77, 80, 69, 71, 50, 32>>   \* "YUV4MPEG2 "
FrameMagic == <<70, 82, 65, 77, 69>>                     \* "FRAME"
HasPrefix(b, i, p) == \A k \in 1 .. Len(p) : Byte(b, i + k - 1) = p[k]

(* Colorspaces: <<"ok", depth, chroma>>, <<"err">> or <<"any">> from the     *)
(* bytes of the C tag's value.                                               *)
Sub(b, i, j) == [k \in 1 .. (j - i) |-> b[i + k - 1]]
S420 == <<52, 50, 48>>  S411 == <<52, 49, 49>>  S422 == <<52, 50, 50>>  S444 == <<52, 52, 52>>
SMono == <<109, 111, 110, 111>>
Sjpeg == <<106, 112, 101, 103>>  Spaldv == <<112, 97, 108, 100, 118>>  Smpeg2 == <<109, 112, 101, 103, 50>>
Salpha == <<97, 108, 112, 104, 97>>
(* <<"ok", depth>> from a suffix of digits *)
DepthOf(d) ==
  IF d = <<>> THEN <<"ok", 8>>
  ELSE IF \E k \in 1 .. Len(d) : ~IsDigit(d[k]) THEN <<"any", 0>>
  ELSE IF d[1] = 48 THEN <<"any", 0>>
  ELSE IF Number(d, 1, Len(d) + 1) \in 8 .. 16 THEN <<"ok", Number(d, 1, Len(d) + 1)>>
  ELSE <<"err", 0>>
Colorspace(c) ==
  IF Len(c) > 9 THEN [st |-> "any", depth |-> 8, ch |-> "mono"]
  ELSE IF HasPrefix(c, 1, SMono) THEN
    LET d == DepthOf(Sub(c, 5, Len(c) + 1)) IN [st |-> d[1], depth |-> d[2], ch |-> "mono"]
  ELSE
    LET ch == IF HasPrefix(c, 1, S420) THEN "420" ELSE IF HasPrefix(c, 1, S411) THEN "411"
              ELSE IF HasPrefix(c, 1, S422) THEN "422" ELSE IF HasPrefix(c, 1, S444) THEN "444" ELSE "no"
        rest == Sub(c, 4, Len(c) + 1)
    IN IF ch = "no" THEN [st |-> "err", depth |-> 8, ch |-> ch]
       ELSE IF rest = <<>> THEN [st |-> "ok", depth |-> 8, ch |-> ch]
       ELSE IF ch = "420" /\ rest \in {Sjpeg, Spaldv, Smpeg2} THEN [st |-> "ok", depth |-> 8, ch |-> ch]
       ELSE IF ch = "444" /\ rest = Salpha THEN [st |-> "ok", depth |-> 8, ch |-> "444alpha"]
       ELSE IF rest[1] = 112 /\ Len(rest) > 1 /\ IsDigit(rest[2]) THEN
         LET d == DepthOf(Sub(rest, 2, Len(rest) + 1)) IN [st |-> d[1], depth |-> d[2], ch |-> ch]
       ELSE [st |-> "any", depth |-> 8, ch |-> ch]
(* samples of the planes other than luma in a frame *)
Chroma(ch, w, h) == CASE ch = "mono" -> 0
                      [] ch = "420" -> CeilDiv(w, 2) * CeilDiv(h, 2) * 2
                      [] ch = "411" -> CeilDiv(w, 4) * h * 2
                      [] ch = "422" -> CeilDiv(w, 2) * h * 2
                      [] ch = "444" -> w * h * 2
                      [] ch = "444alpha" -> w * h * 3

(* tags from i on: w, h, c (bytes) or a status *)
RECURSIVE Tags(_, _, _)
Tags(b, i, t) ==
  LET c == Byte(b, i)  e == SkipToken(b, i) IN
  IF c = -1 \/ Byte(b, e) = -1 THEN [t EXCEPT !.st = "err"]     \* cut short
  ELSE IF c = 10 THEN [t EXCEPT !.next = i + 1]
  ELSE IF c = 32 THEN Tags(b, i + 1, t)
  ELSE IF IsWs(c) THEN [t EXCEPT !.st = "any"]
  ELSE IF Byte(b, e) \notin {32, 10, -1} THEN [t EXCEPT !.st = "any"]
  ELSE IF e = i + 1 THEN \* a tag without a value
    [t EXCEPT !.st = "any"]
  ELSE IF c \in {87, 72} THEN
    IF ~IsDigit(b[i + 1]) THEN [t EXCEPT !.st = IF b[i + 1] \in {43, 45} THEN "any" ELSE "err"]
    ELSE IF SkipDigits(b, i + 1) # e THEN [t EXCEPT !.st = "any"]
    ELSE IF (c = 87 /\ t.w # -1) \/ (c = 72 /\ t.h # -1) THEN [t EXCEPT !.st = "any"]
    ELSE Tags(b, e, IF c = 87 THEN [t EXCEPT !.w = Number(b, i + 1, e)] ELSE [t EXCEPT !.h = Number(b, i + 1, e)])
  ELSE IF c = 67 THEN
    IF t.c # <<>> THEN [t EXCEPT !.st = "any"]
    ELSE IF e - i > 10 THEN [t EXCEPT !.st = "any"]
    ELSE Tags(b, e, [t EXCEPT !.c = Sub(b, i + 1, e)])
  ELSE Tags(b, e, t)

Y4mHeader(b) ==
  IF ~HasPrefix(b, 1, Y4mMagic) THEN Bad("err")
  ELSE LET t == Tags(b, 11, [st |-> "ok", w |-> -1, h |-> -1, c |-> <<>>, next |-> 0])
           cs == IF t.c = <<>> THEN [st |-> "ok", depth |-> 8, ch |-> "420"] ELSE Colorspace(t.c)
       IN IF t.st # "ok" THEN Bad(t.st)
          ELSE IF t.w \in {-1, 0} \/ t.h \in {-1, 0} THEN Bad("err")
          ELSE IF cs.st # "ok" THEN Bad(cs.st)
          ELSE IF t.w = Big \/ t.h = Big \/ t.w > 20000000 \div t.h THEN Bad("big")
          ELSE LET bw == IF cs.depth > 8 THEN 2 ELSE 1
               IN [Bad("ok") EXCEPT !.w = t.w, !.h = t.h, !.mx = Pow2(cs.depth) - 1, !.bw = bw,
                                    !.uv = Chroma(cs.ch, t.w, t.h) * bw, !.next = t.next]

(* --- streams --------------------------------------------------------------- *)
(* What a file holds: the complete frames with the offset of their first     *)
(* sample, and what comes after the last of them:                            *)
(*   eof    nothing                                                          *)
(*   trunc  part of a frame or of its header, then the end                   *)
(*   bad    something that is not a frame                                    *)
(*   any    something on which nothing is promised                           *)
Exceeds(w, h, n) == w > n \div h      \* w*h > n

RECURSIVE PfmFrames(_, _, _, _, _)
PfmFrames(b, hd, w, h, fr) ==   \* hd: header of the next frame
  IF hd.st # "ok" THEN [fr |-> fr, tail |-> CASE hd.st = "err" -> "bad" [] OTHER -> "any"]
  ELSE IF hd.w # w \/ hd.h # h THEN [fr |-> fr, tail |-> "bad"]
  ELSE LET per == IF hd.kind = 70 THEN 12 ELSE 4
           avail == Len(b) - hd.next + 1
       IN IF Exceeds(w, h, avail \div per) THEN [fr |-> fr, tail |-> "trunc"]
          ELSE LET next == hd.next + w * h * per
                   fr2 == Append(fr, [off |-> hd.next, kind |-> hd.kind, le |-> hd.le])
               IN IF next > Len(b) THEN [fr |-> fr2, tail |-> "eof"]
                  ELSE PfmFrames(b, PfmHeader(b, next), w, h, fr2)

RECURSIVE Y4mFrames(_, _, _, _)
Y4mFrames(b, i, hd, fr) ==
  IF i > Len(b) THEN [fr |-> fr, tail |-> "eof"]
  ELSE IF Len(b) - i + 1 < 5 THEN [fr |-> fr, tail |-> "trunc"]
  ELSE IF ~HasPrefix(b, i, FrameMagic) THEN [fr |-> fr, tail |-> "bad"]
  ELSE IF Find(b, 10, i) = 0 THEN [fr |-> fr, tail |-> "trunc"]
  ELSE IF Byte(b, i + 5) \notin {32, 10} THEN [fr |-> fr, tail |-> "any"]
  ELSE LET d == Find(b, 10, i) + 1
           size == hd.w * hd.h * hd.bw + hd.uv
       IN IF Len(b) - d + 1 < size THEN [fr |-> fr, tail |-> "trunc"]
          ELSE Y4mFrames(b, d + size, hd, Append(fr, [off |-> d, kind |-> 0, le |-> TRUE]))

NoStream(st, fmt) == [st |-> st, fmt |-> fmt, w |-> 0, h |-> 0, mx |-> 0, bw |-> 1, fr |-> <<>>, tail |-> "any"]
MaxPx == 20000000
Stream(b, fmt) ==
  CASE fmt = "PGM" ->
         LET hd == PgmHeader(b) IN
         IF hd.st # "ok" THEN NoStream(hd.st, fmt)
         ELSE IF Exceeds(hd.w, hd.h, MaxPx) THEN NoStream("big", fmt)
         ELSE LET full == ~Exceeds(hd.w, hd.h, Len(b) - hd.next + 1)
              IN [st |-> "ok", fmt |-> fmt, w |-> hd.w, h |-> hd.h, mx |-> hd.mx, bw |-> 1,
                  fr |-> IF full THEN <<[off |-> hd.next, kind |-> 0, le |-> TRUE]>> ELSE <<>>,
                  tail |-> IF full THEN "eof" ELSE "trunc"]
    [] fmt = "PFM" ->
         LET hd == PfmHeader(b, 1) IN
         IF hd.st # "ok" THEN NoStream(hd.st, fmt)
         ELSE IF Exceeds(hd.w, hd.h, MaxPx) THEN NoStream("big", fmt)
         ELSE LET f == PfmFrames(b, hd, hd.w, hd.h, <<>>)
              IN [st |-> "ok", fmt |-> fmt, w |-> hd.w, h |-> hd.h, mx |-> 0, bw |-> 4, fr |-> f.fr, tail |-> f.tail]
    [] fmt = "Y4M" ->
         LET hd == Y4mHeader(b) IN
         IF hd.st # "ok" THEN NoStream(hd.st, fmt)
         ELSE LET f == Y4mFrames(b, hd.next, hd, <<>>)
              IN [st |-> "ok", fmt |-> fmt, w |-> hd.w, h |-> hd.h, mx |-> hd.mx, bw |-> hd.bw, fr |-> f.fr, tail |-> f.tail]

(* --- samples ----------------------------------------------------------------- *)
(* Is the single (hi, lo) the fraction v/d up to rounding?  0 <= v, 0 < d <= 65535 *)
IsFrac(hi, lo, v, d) ==
  IF v = 0 THEN hi % 32768 = 0 /\ lo = 0
  ELSE LET exp == (hi % 32768) \div 128
           k == 138 - exp          \* (mantissa*d)/2^12 = v*2^k
           mh == 2048 + (hi % 128) * 16 + (lo \div 4096)
           ml == lo % 4096
           a == mh * d + (ml * d) \div 4096
       IN /\ hi < 32768
          /\ exp > 0 /\ exp < 255
          /\ k >= 0 /\ k <= 30
          /\ v <= 1073741824 \div Pow2(k)
          /\ Abs(a - v * Pow2(k)) <= (d \div 1024) + 4
(* Is it s/3, up to rounding, for |s| < 2^24? *)
IsThird(hi, lo, s) ==
  IF s = 0 THEN hi % 32768 = 0 /\ lo = 0
  ELSE LET exp == (hi % 32768) \div 128
           man == 8388608 + (hi % 128) * 65536 + lo
           k == 150 - exp          \* man*3 = |s| * 2^k
       IN /\ (hi >= 32768) = (s < 0)
          /\ exp > 0 /\ exp < 255
          /\ k >= 0 /\ k <= 29
          /\ Abs(s) <= 536870912 \div Pow2(k)
          /\ Abs(man * 3 - Abs(s) * Pow2(k)) <= 12

Bits(b, i, le) == IF le THEN <<b[i + 3] * 256 + b[i + 2], b[i + 1] * 256 + b[i]>>
                        ELSE <<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3]>>
SameFloat(hi, lo, x) == (hi = x[1] /\ lo = x[2]) \/ (F32IsNaN(hi, lo) /\ F32IsNaN(x[1], x[2]))

(* Do the pixels px (halves of the bits of w*h floats) show frame k of st? *)
PixelOK(b, st, f, p, hi, lo) ==   \* p from 0
  CASE st.fmt = "PGM" -> IsFrac(hi, lo, b[f.off + p], st.mx)
    [] st.fmt = "Y4M" -> IsFrac(hi, lo, IF st.bw = 1 THEN b[f.off + p] ELSE b[f.off + 2 * p] + 256 * b[f.off + 2 * p + 1], st.mx)
    [] st.fmt = "PFM" ->
         LET row == p \div st.w
             at == (st.h - 1 - row) * st.w + (p % st.w)       \* rows are stored bottom to top
         IN IF f.kind = 102 THEN SameFloat(hi, lo, Bits(b, f.off + 4 * at, f.le))
            ELSE LET R == Bits(b, f.off + 12 * at, f.le)
                     G == Bits(b, f.off + 12 * at + 4, f.le)
                     B == Bits(b, f.off + 12 * at + 8, f.le)
                     r == F32ToInt(R[1], R[2])  g == F32ToInt(G[1], G[2])  bl == F32ToInt(B[1], B[2])
                 IN IF Abs(r) > 2000000 \/ Abs(g) > 2000000 \/ Abs(bl) > 2000000 THEN TRUE  \* not checked
                    ELSE IsThird(hi, lo, r + g + bl)
(* samples over the maximum are not checked: nothing is promised on them *)
InRange(b, st, f, p) ==
  CASE st.fmt = "PGM" -> b[f.off + p] <= st.mx
    [] st.fmt = "Y4M" -> st.bw = 1 \/ b[f.off + 2 * p] + 256 * b[f.off + 2 * p + 1] <= st.mx
    [] OTHER -> TRUE
FrameOK(b, st, k, px, base) ==
  /\ Len(px) >= 2 * (base + st.w * st.h)
  /\ \A p \in 0 .. (st.w * st.h - 1) :
       InRange(b, st, st.fr[k], p) =>
         PixelOK(b, st, st.fr[k], p, px[2 * (base + p) + 1], px[2 * (base + p) + 2])
=============================================================================
