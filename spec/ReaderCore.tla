---------------------------- MODULE ReaderCore ------------------------------
(* Reading and seeking of an open image, independently of its format.        *)
(*                                                                           *)
(* A reader state r is                                                        *)
(*   [n, tail, pos, mode, still]                                              *)
(* n complete frames, of which pos were passed; tail says what follows them   *)
(* (see Formats!Stream); mode is "ok", "dead" once a truncation was reported  *)
(* (no frame may be delivered after it), or "any" when nothing is promised    *)
(* any more.  A still image has one frame by definition; if it is truncated   *)
(* it has n = 0 and tail "trunc".                                             *)
EXTENDS Num

OK == 0
NOMEM == 1
INTERNAL == 2
INVAL == 3
UNSUPP == 4
TOOBIG == 5
PARAM == 6
NOIMG == 7

MkReader(n, tail, still) == [n |-> n, tail |-> tail, pos |-> 0, mode |-> "ok", still |-> still]
AnyReader == [n |-> 0, tail |-> "any", pos |-> 0, mode |-> "any", still |-> FALSE]

(* A reply is <<returned true?, error, frame delivered (0: none), state>>.    *)
EndReplies(r) ==  \* replies at the end of the complete frames; r.pos = r.n
  CASE r.mode = "dead" -> {<<FALSE, OK, r>>, <<FALSE, INVAL, r>>}
    [] r.mode = "ok" /\ r.tail = "eof"   -> {<<FALSE, OK, r>>}
    [] r.mode = "ok" /\ r.tail = "trunc" -> {<<FALSE, INVAL, [r EXCEPT !.mode = "dead"]>>}
    [] r.mode = "ok" /\ r.tail = "bad"   -> {<<FALSE, INVAL, [r EXCEPT !.mode = "any"]>>}

Anything(r) == r.mode = "any" \/ (r.pos = r.n /\ r.tail = "any")

(* all allowed replies to a read: <<ret, err, state, frame>> *)
ReadReplies(r) ==
  IF r.pos < r.n THEN {<<TRUE, OK, [r EXCEPT !.pos = @ + 1], r.pos + 1>>}
  ELSE {<<e[1], e[2], e[3], 0>> : e \in EndReplies(r)}

(* all allowed replies to a seek by k: <<ret, err, state, frames passed>> *)
SeekReplies(r, k) ==
  IF k = 0 THEN {<<TRUE, OK, r, 0>>}
  ELSE IF k <= r.n - r.pos THEN {<<TRUE, OK, [r EXCEPT !.pos = @ + k], k>>}
  ELSE LET left == r.n - r.pos
           e == EndReplies([r EXCEPT !.pos = r.n])
       IN {<<x[1], x[2], x[3], left>> : x \in e}
          \* a still image may be passed over without looking at it
          \cup (IF r.still /\ r.tail = "trunc" /\ r.mode = "ok"
                THEN {<<k = 1, OK, [r EXCEPT !.mode = "dead"], 1>>} ELSE {})
=============================================================================
