----------------------------- MODULE MCFormats ------------------------------
(* Files of the native formats as sequences of fields.  Every field has a    *)
(* usual value and unusual ones; TLC enumerates all files with at most       *)
(* MaxDev unusual fields, checks on each what the grammar of Formats must    *)
(* satisfy, and prints them to be read by the library (check R04).           *)
EXTENDS Formats

CONSTANTS MaxDev, Fmts
VARIABLES fmt, i, d, b
vars == <<fmt, i, d, b>>

D(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
        ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
SP == <<32>>  NL == <<10>>  TAB == <<9>>  CRLF == <<13, 10>>
Comment == <<35, 99, 10>>          \* #c
TwoTo32(x) == <<52, 50, 57, 52, 57, 54, 55>> \o x      \* 4294967...
TwoTo64(x) == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53>> \o x    \* 1844674407370955...
(* a dimension, usually n *)
Nums(n) == <<D(n), D(1), D(3), <<48>> \o D(n), D(0), <<>>, <<45>> \o D(n), <<43>> \o D(n), <<120>>, D(n) \o <<120>>,
             <<49, 48, 48, 48, 48, 48, 48, 48, 48, 48>>,          \* 10^9
             TwoTo32(<<50, 57, 54 + n>>),                \* 2^32 + n
             TwoTo64(<<49, 54, 49, 54 + n>>)>>
Seps == <<SP, NL, TAB, SP \o SP, <<>>, Comment, SP \o Comment, <<44>>, <<11>>, <<0>>>>
MagicSeps == <<NL, SP, TAB, CRLF, <<11>>, <<12>>, <<>>, NL \o Comment, NL \o <<35, 99>>, SP \o Comment \o <<35, 10>>, Comment, NL \o Comment \o NL, <<0>>>>
EndSeps == <<NL, SP, TAB, <<13>>, <<>>, <<35>>, CRLF, NL \o NL, <<0>>, <<11>>>>

(* k bytes of samples *)
Data(k) == [j \in 1 .. k |-> (j * 37 + 5) % 251]
Floats(k) == [j \in 1 .. 4 * k |-> IF j % 4 = 1 THEN j % 256 ELSE IF j % 4 = 2 THEN 64 ELSE IF j % 4 = 3 THEN 128 ELSE 63]
FrameHdr == FrameMagic \o NL

Size(hd) == hd.w * hd.h
PayloadOf(n) == <<Data(n), Data(IF n = 0 THEN 0 ELSE n - 1), Data(n + 1), <<>>, Data(n \div 2), Data(2 * n + 3)>>
Small(hd) == hd.st = "ok" /\ hd.w <= 20 /\ hd.h <= 20

PgmAlt(k) ==
  CASE k = 1 -> << <<80, 53>>, <<80, 50>>, <<80, 54>>, <<112, 53>>, <<80, 53, 53>>, <<80>>, <<>>, <<80, 70>>, <<53, 80>>, <<32, 80, 53>>, <<35, 80, 53>> >>
    [] k = 2 -> MagicSeps
    [] k = 3 -> Nums(2)
    [] k = 4 -> Seps
    [] k = 5 -> Nums(4)
    [] k = 6 -> Seps
    [] k = 7 -> <<D(255), D(1), D(254), D(256), D(0), D(127), <<>>, <<45, 49>>, <<120>>, <<48>> \o D(255), D(511), TwoTo32(<<53, 53, 49>>), <<54, 53, 53, 51, 53>>>>
    [] k = 8 -> EndSeps
    [] k = 9 -> LET hd == PgmHeader(b) IN PayloadOf(IF Small(hd) THEN Size(hd) ELSE 8)
Scales == <<<<45, 49, 46, 48>>, <<49, 46, 48>>, <<49>>, <<45, 49>>, <<48, 46, 53>>, <<45, 48, 46, 48>>, <<48>>, <<>>, <<120>>, <<49, 46>>, <<45, 46, 53>>,
            <<49, 101, 49>>, <<43, 49>>, <<45, 49, 46, 48, 120>>, <<105, 110, 102>>, <<110, 97, 110>>, <<45, 45, 49>>>>
PfmHdr(k, w, h, s) == <<80, k, 10>> \o D(w) \o SP \o D(h) \o NL \o s \o NL
PfmAlt(k) ==
  LET hd == PfmHeader(b, 1)
      n == IF Small(hd) THEN Size(hd) * (IF hd.kind = 70 THEN 3 ELSE 1) ELSE 2
      kd == IF hd.kind = 70 THEN 70 ELSE 102
      W == IF Small(hd) THEN hd.w ELSE 2
      H == IF Small(hd) THEN hd.h ELSE 1
      next(f) == PfmHdr(kd, W, H, <<45, 49>>) \o f
  IN
  CASE k = 1 -> << <<80, 102>>, <<80, 70>>, <<112, 102>>, <<80, 53>>, <<80, 103>>, <<80>>, <<>>, <<80, 102, 52>>, <<102, 80>>, <<32, 80, 102>> >>
    [] k = 2 -> MagicSeps
    [] k = 3 -> Nums(2)
    [] k = 4 -> Seps
    [] k = 5 -> Nums(1)
    [] k = 6 -> Seps
    [] k = 7 -> Scales
    [] k = 8 -> EndSeps
    [] k = 9 -> LET f == Floats(n) IN <<f, SubSeq(f, 1, Len(f) - 1), SubSeq(f, 1, Len(f) - 4), <<>>, SubSeq(f, 1, Len(f) \div 2)>>
    [] k = 10 -> LET f == Floats(n) IN
                 <<<<>>, next(f), next(f) \o next(f), next(SubSeq(f, 1, Len(f) - 1)), next(<<>>), <<80>>, <<80, kd>>, <<80, kd, 10>>, <<10>>, <<120>>,
                   PfmHdr(kd, H + 1, W, <<49>>) \o Floats(60), PfmHdr(kd, W, H, <<49>>) \o f, PfmHdr(172 - kd, W, H, <<49>>) \o Floats(n * 3), PfmHdr(kd, W, H + 1, <<49>>) \o Floats(60),
                   <<80, kd>> \o SP \o Comment \o D(W) \o NL \o D(H) \o SP \o <<45, 49, 32>> \o f, <<80, kd, 10>> \o D(W), <<80, kd, 10>> \o D(W) \o SP \o D(H) \o <<10, 45, 49>>>>
W(x) == <<87>> \o x   H(x) == <<72>> \o x   C(x) == <<67>> \o x   X(x) == <<88>> \o x
TagSeps == <<SP, SP \o SP, TAB, NL, <<>>, <<13>>, <<11>>>>
DimTags(T(_), n) == [k \in 1 .. Len(Nums(n)) |-> T(Nums(n)[k])] \o <<<<>>, T(SP \o D(n)), T(D(n)) \o SP \o T(D(3)), <<119>> \o D(n)>>
Y4mAlt(k) ==
  LET hd == Y4mHeader(b)
      n == IF Small(hd) THEN Size(hd) * hd.bw + hd.uv ELSE 3
  IN
  CASE k = 1 -> <<Y4mMagic, SubSeq(Y4mMagic, 1, 9), SubSeq(Y4mMagic, 1, 9) \o NL, SubSeq(Y4mMagic, 1, 8) \o SP, SP \o Y4mMagic, SubSeq(Y4mMagic, 1, 8) \o <<51, 32>>, <<>>>>
    [] k = 2 -> DimTags(W, 2)
    [] k = 3 -> TagSeps
    [] k = 4 -> DimTags(H, 1)
    [] k = 5 -> TagSeps
    [] k = 6 -> <<C(SMono), <<>>, C(S420), C(S420 \o Sjpeg), C(S411), C(S422), C(S444), C(S444 \o Salpha), C(SMono \o D(16)), C(SMono \o D(9)), C(S420 \o <<112>> \o D(10)), C(S420 \o <<112>> \o D(17)),
                  C(SMono \o D(7)), C(<<>>), C(<<52, 50, 49>>), C(<<109, 111, 110>>), C(SMono \o <<120>>), C(S420 \o <<120>>), C(<<52, 49, 48>>), C(S444 \o <<112>> \o D(16)), C(S422 \o <<112>> \o D(8)),
                  C(S420 \o Spaldv), C(S420 \o Smpeg2), C(S444 \o Salpha \o <<120>>), C(S411 \o <<112>> \o D(12)), C(S444 \o <<112>>), C(SMono \o D(264 % 1000)), C(SMono) \o SP \o C(S444)>>
    [] k = 7 -> TagSeps
    [] k = 8 -> <<<<70, 51, 48, 58, 49>>, <<>>, X(W(D(5))), <<73, 112>>, X(C(SMono \o D(16))), X(FrameMagic), <<65, 49, 58, 49>>, <<88>>, <<70>>, X(H(D(3))) \o SP \o <<65, 48, 58, 48>>, H(D(1)), <<35>>>>
    [] k = 9 -> <<NL, SP \o NL, CRLF, <<>>, NL \o NL>>
    [] k = 10 -> <<FrameMagic, <<>>, SubSeq(FrameMagic, 1, 4), FrameMagic \o <<83>>, <<102, 114, 97, 109, 101>>, SP \o FrameMagic>>
    [] k = 11 -> <<<<>>, SP \o <<73, 112>>, SP \o X(W(D(3))), <<120>>, SP, TAB, SP \o X(Data(0)) \o SP \o <<73, 116>>>>
    [] k = 12 -> <<NL, <<>>, CRLF, SP \o NL>>
    [] k = 13 -> PayloadOf(n)
    [] k = 14 -> <<<<>>, FrameHdr \o Data(n), FrameHdr \o Data(n) \o FrameHdr \o Data(n), FrameHdr \o Data(IF n = 0 THEN 0 ELSE n - 1), FrameHdr, FrameMagic, SubSeq(FrameMagic, 1, 3), <<120>>,
                   FrameMagic \o SP \o <<73, 112, 10>> \o Data(n), FrameMagic \o SP, NL, FrameMagic \o TAB \o NL \o Data(n)>>
Alt(k) == CASE fmt = "PGM" -> PgmAlt(k) [] fmt = "PFM" -> PfmAlt(k) [] fmt = "Y4M" -> Y4mAlt(k)
Fields == CASE fmt = "PGM" -> 9 [] fmt = "PFM" -> 10 [] fmt = "Y4M" -> 14

Init == fmt \in Fmts /\ i = 1 /\ d = 0 /\ b = <<>>
Next == /\ i <= Fields
        /\ \E k \in 1 .. Len(Alt(i)) :
             /\ k > 1 => d < MaxDev
             /\ b' = b \o Alt(i)[k]
             /\ d' = IF k > 1 THEN d + 1 ELSE d
        /\ i' = i + 1
        /\ UNCHANGED fmt
Spec == Init /\ [][Next]_vars
Done == i = Fields + 1
Emit == Done => PrintT("FILE " \o fmt \o " " \o ToString(d) \o " " \o ToString(b))

(* --- what the grammar satisfies ---------------------------------------------- *)
St == Stream(b, fmt)
FrameLen(st, f) == CASE fmt = "PGM" -> st.w * st.h
                     [] fmt = "PFM" -> st.w * st.h * (IF f.kind = 70 THEN 12 ELSE 4)
                     [] fmt = "Y4M" -> LET hd == Y4mHeader(b) IN st.w * st.h * st.bw + hd.uv
End(st, k) == st.fr[k].off + FrameLen(st, st.fr[k])       \* position after frame k
HeaderEnd == CASE fmt = "PGM" -> PgmHeader(b).next [] fmt = "PFM" -> PfmHeader(b, 1).next [] fmt = "Y4M" -> Y4mHeader(b).next

(* frames lie in the file, in order, without overlap *)
FramesInside == Done /\ St.st = "ok" =>
  LET st == St IN
  /\ st.w > 0 /\ st.h > 0
  /\ \A k \in 1 .. Len(st.fr) : /\ st.fr[k].off >= (IF k = 1 THEN HeaderEnd ELSE End(st, k - 1))
                                /\ End(st, k) - 1 <= Len(b)
  /\ fmt # "PGM" /\ st.tail = "eof" => Len(b) + 1 = (IF st.fr = <<>> THEN HeaderEnd ELSE End(st, Len(st.fr)))
(* a usual file is accepted, with one frame *)
UsualAccepted == Done /\ d = 0 => St.st = "ok" /\ Len(St.fr) = 1 /\ St.tail = "eof"
(* of the beginning of a file, exactly the frames that are complete are read, *)
(* and missing data never goes unnoticed                                      *)
Cut(k) == SubSeq(b, 1, k)
Truncation == Done /\ St.st = "ok" =>
  LET st == St  he == HeaderEnd IN
  \A k \in 0 .. (Len(b) - 1) :
    LET t == Stream(Cut(k), fmt) IN
    IF k < he - 1 THEN t.st = "err"
    ELSE /\ t.st = "ok" /\ t.w = st.w /\ t.h = st.h /\ t.mx = st.mx
         /\ t.fr = SelectSeq(st.fr, LAMBDA f : f.off + FrameLen(st, f) - 1 <= k)
         /\ LET ends == {End(st, j) - 1 : j \in 1 .. Len(t.fr)} \cup (IF fmt = "Y4M" THEN {he - 1} ELSE {})
            IN IF k \in ends THEN t.tail = "eof"
               ELSE \/ t.tail \in {"trunc", "bad"}
                    \* data after the only frame of a PGM
                    \/ fmt = "PGM" /\ Len(t.fr) = 1 /\ t.tail = "eof"
                    \/ t.tail = "any" /\ Len(t.fr) = Len(st.fr) /\ st.tail # "eof"
(* nothing is of two formats *)
OneFormat == Done => \A f \in {"PGM", "PFM", "Y4M"} \ {fmt} : St.st = "ok" => Stream(b, f).st = "err"
=============================================================================
