------------------------------- MODULE MCApi --------------------------------
(* Histories of the library's interface over two images and a file.  In      *)
(* every reachable state and for every call the specification allows the     *)
(* reply an ideal library gives, and rejects every reply that differs from   *)
(* it in something that is promised (CanReply, Precise).  One shortest       *)
(* history for every state and call after it is printed; they are replayed   *)
(* into the library (checks A01, A05, A06, A07, A08).                        *)
EXTENDS Api

CONSTANTS Group,    \* "two": parameters and two analyses; "file": an analysis, an open image, and detection
          M0, M1,   \* the methods used by the two analyses
          N0, N1,   \* how many frames they are given at most
          P1,       \* the second is created with parameters?
          Ranges, Thrs

(* spectra: odd about some places in many lines, and free of ties *)
CA == << <<9, -3, 3, -1, -3, 3, 5>>, <<-11, -7, -3, 1, 5, 7, 3>>, <<1, -1, 1, -1, 1, -1, 1>>, <<-3, 7, 3, 1, -5, 1, -3>>, <<1, 5, -9, -1, -9, -7, 11>> >>
CB == << <<11, -3, 3, -1, 9, -3, -5>>, <<-5, -7, -1, 3, -9, 1, 3>>, <<9, 11, 1, -7, -11, -1, -9>>, <<-11, 5, -9, -5, -1, -5, 11>>, <<9, 3, 9, -3, 1, -9, 9>> >>
MCImages == << [w |-> 7, h |-> 5, c |-> CA, tol |-> 0, bad |-> FALSE],
               [w |-> 7, h |-> 5, c |-> CB, tol |-> 0, bad |-> FALSE],
               [w |-> 7, h |-> 5, c |-> <<>>, tol |-> 0, bad |-> TRUE] >>
(* two frames of black and white *)
Px == << <<255, 0, 255, 255, 0, 0>>, <<0, 255, 0, 255, 255, 0>> >>
FileBytes == Y4mMagic \o <<87, 51, 32, 72, 50, 32, 67>> \o SMono \o <<10>> \o FrameMagic \o <<10>> \o Px[1] \o FrameMagic \o <<10>> \o Px[2]
MCFiles == << [b |-> FileBytes, xr |-> <<>>, xw |-> 0, xh |-> 0, xd |-> 0, xt |-> 0, xn |-> FALSE, xf |-> <<>>, xe |-> "eof", fi |-> <<>>, rep |-> 1] >>
Cf == [range |-> 12, pmax |-> 0, readers |-> <<"PGM", "PFM", "Y4M">>, rnames |-> <<Xpgm, Xpfm, Xy4m>>, name |-> "model", kiss |-> FALSE]

ASSUME /\ \A i \in 1 .. 2 : PrintT("IMAGE " \o ToString(i) \o " " \o ToString(MCImages[i].c))
       /\ PrintT("BYTES " \o ToString(FileBytes))

VARIABLES s, hist
vars == <<s, hist>>

(* --- calls: the line of the driver's script, and the event without its reply --- *)
T == [half |-> [hi |-> 16128, lo |-> 0, ppb |-> 500000000, p |-> 1, q |-> 2, l |-> "3f000000 500000000 1 2"],
      neg  |-> [hi |-> 49024, lo |-> 0, ppb |-> -1000000000, p |-> -1, q |-> 1, l |-> "bf800000 -1000000000 -1 1"],
      zero |-> [hi |-> 0, lo |-> 0, ppb |-> 0, p |-> 0, q |-> 1, l |-> "00000000 0 0 1"],
      over |-> [hi |-> 16256, lo |-> 1, ppb |-> 1000000119, p |-> -1, q |-> 1, l |-> "3f800001 1000000119 -1 1"]]
Hs(h) == IF h = -1 THEN "NULL" ELSE ToString(h)
Im(i) == IF i = 0 THEN "NULL" ELSE ToString(i)
NF0 == [nf |-> 0, nx |-> 0]
PH == DOMAIN s.par \cup {-1}          \* handles that may be passed
AH == DOMAIN s.an \cup {-1}
Masks == IF Group = "two" THEN {15, 3, 12, 0, 13} ELSE {15, 14, 2, 7}
ParamCalls ==
  (IF 0 \in DOMAIN s.par THEN {[l |-> "pfree 0", e |-> [op |-> "pfree", h |-> 0]]}
   ELSE {[l |-> "palloc 0", e |-> [op |-> "palloc", h |-> 0] @@ NF0]})
  \cup {[l |-> "prange " \o Hs(h) \o " " \o ToString(n), e |-> [op |-> "prange", h |-> h, n |-> n]] : h \in PH, n \in {0} \cup Ranges}
  \cup {[l |-> "pthr " \o Hs(h) \o " " \o T[k].l, e |-> [op |-> "pthr", h |-> h, hi |-> T[k].hi, lo |-> T[k].lo, ppb |-> T[k].ppb, p |-> T[k].p, q |-> T[k].q]] :
        h \in PH, k \in Thrs}
  \cup {[l |-> "pfilt " \o Hs(h) \o " 32", e |-> [op |-> "pfilt", h |-> h, v |-> 32]] : h \in PH}
Most(h) == IF h = 0 THEN N0 ELSE N1
AnalysisCalls ==
  {[l |-> "create " \o ToString(h) \o " " \o m \o " " \o ToString(w) \o " 5 " \o Hs(p) \o " 1",
    e |-> [op |-> "create", h |-> h, m |-> m, w |-> w, hh |-> 5, p |-> p, we |-> TRUE] @@ NF0] :
     h \in {0} \ DOMAIN s.an, m \in M0, w \in {0, 7}, p \in PH}
  \cup {[l |-> "create " \o ToString(h) \o " " \o m \o " " \o ToString(w) \o " 5 " \o Hs(p) \o " 1",
    e |-> [op |-> "create", h |-> h, m |-> m, w |-> w, hh |-> 5, p |-> p, we |-> TRUE] @@ NF0] :
     h \in (IF Group = "two" THEN {1} ELSE {}) \ DOMAIN s.an, m \in M1, w \in {7}, p \in IF P1 THEN PH ELSE {-1}}
  \cup {[l |-> "analyze " \o Hs(h) \o " " \o Im(i), e |-> [op |-> "analyze", h |-> h, img |-> i] @@ NF0] :
     h \in {h \in AH : h = -1 \/ s.an[h].n < Most(h)}, i \in 0 .. 3}
  \cup {[l |-> "results " \o Hs(h) \o " " \o ToString(k), e |-> [op |-> "results", h |-> h, mask |-> k] @@ NF0] : h \in AH, k \in Masks}
  \cup {[l |-> "destroy " \o Hs(h), e |-> [op |-> "destroy", h |-> h]] : h \in AH}
Seqs == {<<>>, <<1>>, <<2, 1>>, <<3>>, <<1, 3>>}
Alone == DOMAIN s.an = {} /\ DOMAIN s.im = {}
RECURSIVE Spaced(_)
Spaced(q) == IF q = <<>> THEN "" ELSE " " \o ToString(Head(q)) \o Spaced(Tail(q))
DetectCalls ==
  {[l |-> "detect 7 5 " \o ToString(k) \o " " \o m \o " " \o Hs(p) \o " " \o ToString(Len(q)) \o Spaced(q),
    e |-> [op |-> "detect", w |-> 7, hh |-> 5, mask |-> k, m |-> m, p |-> p, n |-> Len(q), imgs |-> q, nullimg |-> FALSE] @@ NF0] :
     k \in IF Alone THEN Masks ELSE {15}, m \in M0, p \in PH, q \in IF Alone THEN Seqs ELSE {<<2, 1>>}}
ImageCalls ==
  (IF 0 \in DOMAIN s.im THEN {} ELSE
    {[l |-> "open 0 @F NULL " \o ToString(fl) \o " 1", e |-> [op |-> "open", h |-> 0, fl |-> fl, file |-> 1, nullpath |-> FALSE, pb |-> <<97, 46, 121, 52, 109>>, hast |-> FALSE, tb |-> <<>>] @@ NF0] : fl \in {15, 14, 5}})
  \cup {[l |-> "read " \o Hs(h) \o " g", e |-> [op |-> "read", h |-> h, nobuf |-> FALSE, we |-> TRUE] @@ NF0] : h \in DOMAIN s.im \cup {-1}}
  \cup {[l |-> "seek " \o Hs(h) \o " " \o ToString(n) \o " 1", e |-> [op |-> "seek", h |-> h, n |-> n, cb |-> TRUE, we |-> TRUE] @@ NF0] : h \in DOMAIN s.im \cup {-1}, n \in {0, 1, 2}}
  \cup {[l |-> "close " \o Hs(h), e |-> [op |-> "close", h |-> h]] : h \in DOMAIN s.im \cup {-1}}
  \cup {[l |-> "readimg @F NULL 1", e |-> [op |-> "readimg", file |-> 1, nullpath |-> FALSE, pb |-> <<97, 46, 121, 52, 109>>, hast |-> FALSE, tb |-> <<>>] @@ NF0]}
Calls == ParamCalls \cup AnalysisCalls \cup (IF Group = "file" THEN DetectCalls \cup ImageCalls ELSE {})

(* --- what an ideal library replies ------------------------------------------ *)
Keep(x) == TRUE
List(a, d) == LET acc == IF d = "w" THEN a.aw ELSE a.ah
                  den == Den(a.w, a.h, a.m, d, a.r) * a.n
              IN TheList(IF d = "w" THEN a.w ELSE a.h, acc, den, a.thr, a.n = 1 \/ IsPow2(den \div a.n), Keep)
NoLists == [rwn |-> TRUE, cwv |-> 0, rhn |-> TRUE, chv |-> 0]
Lists(e, a) ==
  (IF Bit(e.mask, 1) THEN [rwn |-> FALSE, lw |-> List(a, "w"), cwv |-> Len(List(a, "w"))] ELSE [rwn |-> FALSE, cwv |-> 0])
  @@ (IF Bit(e.mask, 4) THEN [rhn |-> FALSE, lh |-> List(a, "h"), chv |-> Len(List(a, "h"))] ELSE [rhn |-> FALSE, chv |-> 0])
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the errors the interface's documentation gives *)
Errs(e) ==
  CASE e.op = "prange" -> IF e.h = -1 \/ e.n = 0 THEN {PARAM} ELSE {}
    [] e.op = "pthr" -> IF e.h = -1 \/ e.ppb < 0 \/ e.ppb > 1000000000 THEN {PARAM} ELSE {}
    [] e.op = "pfilt" -> {PARAM}
    [] e.op = "create" -> IF e.w = 0 THEN {INVAL} ELSE {}
    [] e.op = "analyze" -> IF e.h = -1 \/ e.img = 0 THEN {PARAM} ELSE IF e.img = 3 THEN {INVAL} ELSE {}
    [] e.op = "results" -> (IF e.h = -1 \/ e.mask \in {13, 7} THEN {PARAM} ELSE {}) \cup (IF e.h # -1 /\ s.an[e.h].n = 0 THEN {NOIMG} ELSE {})
    [] e.op = "detect" -> (IF e.mask = 7 THEN {PARAM} ELSE {}) \cup (IF e.n = 0 THEN {NOIMG} ELSE {}) \cup (IF \E k \in 1 .. Len(e.imgs) : e.imgs[k] = 3 THEN {INVAL} ELSE {})
    [] e.op = "open" -> IF e.fl = 5 THEN {PARAM} ELSE {}
    [] OTHER -> {}
White == <<16256, 0>>
RECURSIVE Bitsof(_)
Bitsof(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) = 255 THEN White ELSE <<0, 0>>) \o Bitsof(Tail(q))
AnOf(e) == AnalyzeAll(NewAnalysis(Cf, e.m, 7, 5, ParOf(s, e.p)), e.imgs, 1)
Ideal(e) ==
  LET errs == Errs(e)
      ret == IF errs = {} THEN OK ELSE Least(errs)
  IN CASE e.op = "palloc" -> [ok |-> TRUE] @@ e
       [] e.op \in {"prange", "pthr", "pfilt"} -> [ret |-> ret] @@ e
       [] e.op = "create" -> [ret |-> ret, ok |-> errs = {}] @@ e
       [] e.op = "analyze" -> [ret |-> ret, same |-> TRUE] @@ e
       [] e.op = "results" -> [ret |-> ret] @@ (IF errs # {} THEN NoLists ELSE Lists(e, s.an[e.h])) @@ e
       [] e.op = "detect" -> [ret |-> ret] @@ (IF errs # {} THEN NoLists ELSE Lists(e, AnOf(e))) @@ e
       [] e.op = "open" -> (IF errs = {} THEN [ok |-> TRUE, ret |-> OK, w |-> 3, hh |-> 2, buf |-> IF Bit(e.fl, 1) THEN "ok" ELSE ""]
                            ELSE [ok |-> FALSE, ret |-> 0, w |-> 0, hh |-> -1, buf |-> "null"]) @@ e
       [] e.op = "read" -> (IF e.h = -1 THEN [ret |-> FALSE, err |-> PARAM, guard |-> TRUE]
                            ELSE IF s.im[e.h].rc.pos < 2 THEN [ret |-> TRUE, err |-> OK, guard |-> TRUE, px |-> Bitsof(Px[s.im[e.h].rc.pos + 1])]
                            ELSE [ret |-> FALSE, err |-> OK, guard |-> TRUE]) @@ e
       [] e.op = "seek" -> (IF e.h = -1 THEN [ret |-> FALSE, err |-> PARAM, prog |-> <<>>]
                            ELSE LET left == 2 - s.im[e.h].rc.pos IN
                              [ret |-> e.n <= left, err |-> OK, prog |-> [k \in 1 .. Min2(e.n, left) |-> k]]) @@ e
       [] e.op = "readimg" -> [ret |-> OK, im |-> "ok", fits |-> TRUE, n |-> 2, w |-> 3, hh |-> 2, px |-> Bitsof(Px[1]) \o Bitsof(Px[2])] @@ e
       [] OTHER -> e

(* --- replies that are wrong --------------------------------------------------- *)
WrongLists(l) ==    \* each differs from l in more than an order that is open
  LET n == Len(l) IN
  {SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, n) : k \in 1 .. n}
  \cup {SubSeq(l, 1, k) \o SubSeq(l, k, n) : k \in 1 .. n}
  \cup {[l EXCEPT ![k][2] = @ + d] : k \in 1 .. n, d \in {-1000, 1000, 1000000}}
  \cup {[l EXCEPT ![k][1] = @ + d] : k \in 1 .. n, d \in {-7, 7}}
  \cup {[l EXCEPT ![k][1] = l[j][1], ![j][1] = l[k][1]] : k \in 1 .. n, j \in 1 .. n}
  \cup {<<<<n, 500000000>>>> \o l, Append(l, <<1, 0>>)}
Different(l) == {w \in WrongLists(l) :
  \* exchanging two sizes of equal confidence changes nothing
  ~(Len(w) = Len(l) /\ {w[k] : k \in 1 .. Len(w)} = {l[k] : k \in 1 .. Len(l)} /\ \A k \in 1 .. Len(w) : w[k][2] = l[k][2])}
(* a confidence that differs from a threshold by no more than rounding may be listed or not *)
OpenTie(e) == LET a == IF e.op = "results" THEN s.an[e.h] ELSE AnOf(e) IN
  \E d \in Dims : LET acc == IF d = "w" THEN a.aw ELSE a.ah  den == Den(a.w, a.h, a.m, d, a.r) * a.n IN
    \E x \in DOMAIN acc : /\ Abs(Ppb(acc[x][1], den) - a.thr.ppb) <= TieTol
                          /\ ~(a.thr.p >= 0 /\ (a.n = 1 \/ IsPow2(den \div a.n)))
Rets(e) == IF e.op \in {"prange", "pthr", "pfilt", "create", "analyze", "results", "detect"}
           THEN {[e EXCEPT !.ret = x] : x \in ((-1) .. 8) \ (IF Errs(e) = {} THEN {OK} ELSE Errs(e))} ELSE {}
(* (one-call detection does not depend on the other handles: with none is enough) *)
Wrong(e) == IF e.op = "detect" /\ ~Alone THEN {} ELSE
  Rets(e) \cup
  (CASE e.op \in {"results", "detect"} ->
          (IF e.ret # OK THEN (IF Bit(e.mask, 1) THEN {[e EXCEPT !.rwn = FALSE]} ELSE {}) \cup (IF Bit(e.mask, 2) THEN {[e EXCEPT !.cwv = 7777], [e EXCEPT !.cwv = 1]} ELSE {})
                             \cup (IF Bit(e.mask, 4) THEN {[e EXCEPT !.rhn = FALSE]} ELSE {}) \cup (IF Bit(e.mask, 8) THEN {[e EXCEPT !.chv = 7777]} ELSE {})
           ELSE IF OpenTie(e) THEN {}
           ELSE (IF Bit(e.mask, 1) THEN {[e EXCEPT !.lw = x, !.cwv = Len(x)] : x \in Different(e.lw)} \cup {[e EXCEPT !.cwv = @ + 1], [e EXCEPT !.rwn = TRUE], [e EXCEPT !.cwv = @ - 1]} ELSE {})
                \cup (IF Bit(e.mask, 4) THEN {[e EXCEPT !.lh = x, !.chv = Len(x)] : x \in Different(e.lh)} \cup {[e EXCEPT !.chv = @ + 1], [e EXCEPT !.rhn = TRUE]} ELSE {}))
     [] e.op = "palloc" -> {[e EXCEPT !.ok = FALSE]}
     [] e.op = "create" -> {[e EXCEPT !.ok = ~@]}
     [] e.op = "analyze" -> {[e EXCEPT !.same = FALSE]}
     [] e.op = "open" -> IF e.ok THEN {[e EXCEPT !.w = 4], [e EXCEPT !.hh = 3], [e EXCEPT !.w = 2, !.hh = 3], [e EXCEPT !.ok = FALSE, !.ret = INVAL]} \cup {[e EXCEPT !.ret = x] : x \in 1 .. 7} \cup (IF Bit(e.fl, 1) THEN {[e EXCEPT !.buf = b] : b \in {"null", "unset", "small"}} ELSE {})
                         ELSE {[e EXCEPT !.w = 3], [e EXCEPT !.ok = TRUE], [e EXCEPT !.buf = "unset"]}
     [] e.op = "read" -> {[e EXCEPT !.err = (@ + 1) % 8]} \cup (IF e.h # -1 THEN {[e EXCEPT !.guard = FALSE]} ELSE {})
                         \cup (IF e.ret THEN {[e EXCEPT !.ret = FALSE]} \cup {[e EXCEPT !.px[k] = IF k % 2 = 0 THEN 300 ELSE 16250 - @ \div 2] : k \in {1, 2, 5, 11, 12}} ELSE {})
     [] e.op = "seek" -> {[e EXCEPT !.ret = ~@], [e EXCEPT !.err = INVAL], [e EXCEPT !.prog = Append(@, 1)]} \cup (IF e.prog # <<>> THEN {[e EXCEPT !.prog = Tail(@)], [e EXCEPT !.prog[1] = 0]} ELSE {})
     [] e.op = "readimg" -> {[e EXCEPT !.n = 1, !.px = SubSeq(@, 1, 12)], [e EXCEPT !.w = 2, !.hh = 3], [e EXCEPT !.ret = INVAL], [e EXCEPT !.ret = INVAL, !.im = "null"], [e EXCEPT !.im = "null"], [e EXCEPT !.fits = FALSE],
                             [e EXCEPT !.px = SubSeq(@, 13, 24) \o SubSeq(@, 1, 12)], [e EXCEPT !.n = 3, !.px = @ \o SubSeq(@, 1, 12)]}
     [] OTHER -> {})

Init == s = Init0 /\ hist = <<>>
Next == \E k \in Calls :
  LET e == Ideal(k.e)
      nx == Step(Cf, s, e)
  IN /\ Assert(Cardinality(nx) = 1, <<"no reply is allowed", s, e>>)
     /\ \A x \in Wrong(e) : Assert(Step(Cf, s, x) = {}, <<"a wrong reply is allowed", s, x>>)
     /\ s' \in nx
     /\ hist' = Append(hist, k.l)
Spec == Init /\ [][Next]_vars
LastCall == IF hist = <<>> THEN "" ELSE hist[Len(hist)]
View == <<s, LastCall>>
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE Head(q) \o ";" \o Joined(Tail(q))
Emit == hist # <<>> => PrintT("CALLS " \o Joined(hist))
(* analyses hold what they were created with and were given; nothing else affects them *)
TypeOK == /\ DOMAIN s.par \subseteq {0} /\ DOMAIN s.an \subseteq {0, 1} /\ DOMAIN s.im \subseteq {0}
          /\ \A h \in DOMAIN s.an : /\ s.an[h].n \in 0 .. Most(h)
                                    /\ \A x \in DOMAIN s.an[h].aw : s.an[h].aw[x][1] = s.an[h].aw[x][2]
=============================================================================
