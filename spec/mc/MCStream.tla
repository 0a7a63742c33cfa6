------------------------------ MODULE MCStream ------------------------------
(* The native readers as machines over a stream of pieces of a file, in the  *)
(* three shapes they have (frames with markers, a header before every image  *)
(* of which the first is read on opening, and a single image), with a source *)
(* that can be seeked and with one that cannot, and with files that end      *)
(* anywhere or go on with something that is no frame.  Each read and seek is *)
(* one that ReaderCore allows for the frames that are complete (Allowed),    *)
(* the frame delivered is the next one, and both sources give the same       *)
(* (SameSources).  Every file and history is printed and replayed with real  *)
(* files of the format (checks R05, R06).                                    *)
EXTENDS ReaderCore, Sequences, TLC

CONSTANTS MaxFrames, Depth, Seeks
VARIABLES fmt,     \* "Y4M", "PFM" or "PGM"
          d,       \* what the file holds after the header read on opening
          seekable, piped,       \* the machines: position, first header in hand, single image taken
          spec,    \* the state of ReaderCore
          hist, ok
vars == <<fmt, d, seekable, piped, spec, hist, ok>>

(* pieces: p q n the marker or header of a frame, l its samples, c other planes, x anything else *)
Frame(f) == CASE f = "Y4M" -> <<"p", "q", "n", "l", "l", "c", "c">>
              [] f = "PFM" -> <<"p", "q", "n", "l", "l">>
              [] f = "PGM" -> <<"l", "l">>
Size(f) == Len(Frame(f))
RECURSIVE Times(_, _)
Times(f, n) == IF n = 0 THEN <<>> ELSE Frame(f) \o Times(f, n - 1)
(* the first header of a PFM was read already *)
Body(f, n) == IF f = "PFM" THEN SubSeq(Times(f, n), 4, n * 5) ELSE Times(f, n)
Least(f) == IF f = "Y4M" THEN 0 ELSE 1
Bodies(f) == {SubSeq(Body(f, n), 1, k) : n \in {MaxFrames}, k \in 0 .. Len(Body(f, MaxFrames))}
             \cup (IF f = "PGM" THEN {} ELSE {Body(f, n) \o x : n \in Least(f) .. MaxFrames, x \in {<<"x">>, <<"x", "n", "l">>, <<"x", "x", "n", "l", "l", "l", "l">>}})

(* --- what is in it, by its definition --------------------------------------- *)
Lead(f) == IF f = "PFM" THEN 3 ELSE 0
Complete == IF fmt = "PGM" THEN (IF Len(d) >= 2 THEN 1 ELSE 0)
            ELSE LET N == {n \in 0 .. MaxFrames : Len(d) + Lead(fmt) >= n * Size(fmt) /\ (n = 0 \/ SubSeq(d, 1, n * Size(fmt) - Lead(fmt)) = Body(fmt, n))}
                 IN CHOOSE n \in N : \A m \in N : m <= n
Rest == LET k == Complete * Size(fmt) - Lead(fmt) IN SubSeq(d, (IF k < 0 THEN 0 ELSE k) + 1, Len(d))
Tail_ == IF fmt = "PGM" THEN (IF Complete = 1 THEN "eof" ELSE "trunc")
         ELSE IF fmt = "PFM" /\ Complete = 0 THEN "trunc"
         ELSE IF Rest = <<>> THEN "eof" ELSE IF Rest[1] = "x" THEN "bad" ELSE "trunc"

(* --- a stdio stream over d ----------------------------------------------------- *)
(* m: [at, held, done, seek]; at may lie past the end after seeking *)
Left(m) == IF m.at > Len(d) THEN 0 ELSE Len(d) - m.at
Take(m, n) == [m EXCEPT !.at = @ + Min2(n, Left(m))]              \* fread
Got(m, n) == Min2(n, Left(m))
At(m, k) == d[m.at + k]
(* skipping n pieces: by reading them, or by seeking to the last one and reading that *)
Skipped(m, n) == IF ~m.seek THEN [ok |-> Got(m, n) = n, m |-> Take(m, n)]
                 ELSE LET q == [m EXCEPT !.at = @ + n - 1] IN [ok |-> Left(q) > 0, m |-> Take(q, 1)]

(* --- the machines: replies [ret, err, m, prog, luma]; luma: where the samples delivered began -- *)
Fails(m, e) == [ret |-> FALSE, err |-> e, m |-> m, prog |-> 0, luma |-> -1]
Ends(m, e) == [go |-> FALSE, err |-> e, m |-> m]
Goes(m) == [go |-> TRUE, err |-> OK, m |-> m]
RECURSIVE ToNewline(_)
ToNewline(m) == IF Left(m) = 0 THEN Ends(m, INVAL) ELSE IF At(m, 1) = "n" THEN Goes(Take(m, 1)) ELSE ToNewline(Take(m, 1))
Marker(m) ==
  CASE fmt = "Y4M" -> IF Left(m) = 0 THEN Ends(m, OK)
                      ELSE IF Got(m, 2) < 2 THEN Ends(Take(m, 2), INVAL)
                      ELSE IF <<At(m, 1), At(m, 2)>> # <<"p", "q">> THEN Ends(Take(m, 2), INVAL)
                      ELSE ToNewline(Take(m, 2))
    [] fmt = "PFM" -> IF m.held THEN Goes(m)
                      ELSE IF Left(m) = 0 THEN Ends(m, OK)
                      ELSE IF Got(m, 3) < 3 THEN Ends(Take(m, 3), INVAL)
                      ELSE IF <<At(m, 1), At(m, 2), At(m, 3)>> # <<"p", "q", "n">> THEN Ends(Take(m, 1), INVAL)
                      ELSE Goes(Take(m, 3))
    [] fmt = "PGM" -> IF m.done THEN Ends(m, OK) ELSE Goes(m)
Reading(m) ==
  LET h == Marker(m) IN
  IF ~h.go THEN Fails(h.m, h.err)
  ELSE IF Got(h.m, 2) < 2 THEN Fails([Take(h.m, 2) EXCEPT !.done = TRUE], INVAL)
  ELSE LET l == [Take(h.m, 2) EXCEPT !.held = FALSE, !.done = TRUE]
           c == IF fmt = "Y4M" THEN Skipped(l, 2) ELSE [ok |-> TRUE, m |-> l]
       IN IF c.ok THEN [ret |-> TRUE, err |-> OK, m |-> c.m, prog |-> 0, luma |-> h.m.at] ELSE Fails(c.m, INVAL)
RECURSIVE Seeking(_, _, _)
Seeking(m, k, done) ==
  IF fmt = "PGM" THEN LET take == k > 0 /\ ~m.done IN
       [ret |-> k = 0 \/ (take /\ k = 1), err |-> OK, m |-> IF take THEN [m EXCEPT !.done = TRUE] ELSE m, prog |-> IF take THEN 1 ELSE 0, luma |-> -1]
  ELSE IF done = k THEN [ret |-> TRUE, err |-> OK, m |-> m, prog |-> done, luma |-> -1]
  ELSE LET h == Marker(m) IN
       IF ~h.go THEN [Fails(h.m, h.err) EXCEPT !.prog = done]
       ELSE LET l == Skipped(h.m, 2)
                c == IF l.ok /\ fmt = "Y4M" THEN Skipped(l.m, 2) ELSE l
            IN IF ~c.ok THEN [Fails(c.m, INVAL) EXCEPT !.prog = done]
               ELSE Seeking([c.m EXCEPT !.held = FALSE], k, done + 1)
Reply(m, op) == IF op[1] = "R" THEN Reading(m) ELSE Seeking(m, op[2], 0)

(* --- both machines, and what is allowed ------------------------------------------ *)
Fresh(s) == [at |-> 0, held |-> TRUE, done |-> FALSE, seek |-> s]
Init == /\ fmt \in {"Y4M", "PFM", "PGM"} /\ d \in Bodies(fmt)
        /\ seekable = Fresh(TRUE) /\ piped = Fresh(FALSE)
        /\ spec = MkReader(Complete, Tail_, fmt = "PGM")
        /\ hist = <<>> /\ ok = TRUE
LumaAt(k) == (k - 1) * Size(fmt) + (IF fmt = "Y4M" THEN 3 ELSE 0)
Allowed(op, y) == {x \in (IF op[1] = "R" THEN ReadReplies(spec) ELSE SeekReplies(spec, op[2])) :
  /\ x[1] = y.ret /\ x[2] = y.err
  /\ IF op[1] = "R" THEN y.ret => y.luma = LumaAt(x[4]) ELSE y.prog = x[4]}
Ops == {<<"R", 0>>} \cup {<<"S", k>> : k \in Seeks}
Do(op) ==
  LET a == Reply(seekable, op)  b == Reply(piped, op) IN
  /\ seekable' = a.m /\ piped' = b.m
  /\ hist' = Append(hist, op)
  /\ IF Allowed(op, a) # {} /\ Allowed(op, b) # {}
     THEN \E x \in Allowed(op, a) : spec' = x[3] /\ ok' = ([a EXCEPT !.m = 0] = [b EXCEPT !.m = 0] /\ \E z \in Allowed(op, b) : z[3] = x[3])
     ELSE ok' = FALSE /\ spec' = spec
  /\ UNCHANGED <<fmt, d>>
Next == Len(hist) < Depth /\ spec.mode # "any" /\ ok /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Right == ok
(* a machine that delivered everything never delivers more, and positions agree as long as nothing failed *)
Exhausted == spec.mode = "dead" => Reading(seekable).ret = FALSE /\ Reading(piped).ret = FALSE
Agree == (spec.mode = "ok" /\ hist # <<>>) => seekable.at = piped.at
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE Head(q)[1] \o (IF Head(q)[1] = "S" THEN ToString(Head(q)[2]) ELSE "") \o ";" \o Joined(Tail(q))
RECURSIVE Pieces(_)
Pieces(q) == IF q = <<>> THEN "" ELSE Head(q) \o Pieces(Tail(q))
Last2 == IF Len(hist) < 2 THEN hist ELSE SubSeq(hist, Len(hist) - 1, Len(hist))
View == <<fmt, d, seekable, piped, spec, Last2, ok>>
Emit == hist # <<>> => PrintT("STREAM " \o fmt \o " " \o ToString(Complete) \o " " \o Tail_ \o " ." \o Pieces(d) \o " " \o Joined(hist))
=============================================================================
