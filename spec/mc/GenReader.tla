----------------------------- MODULE GenReader ------------------------------
(* Behaviours of an open image, from the specification: one shortest history *)
(* for every reachable reader state together with the last two operations.   *)
(* They are printed and replayed into the library (check R02 and others).    *)
EXTENDS ReaderCore, Sequences, TLC

CONSTANTS MaxN, Seeks, Depth
VARIABLES r, hist

Ops == {<<"R", 0>>} \cup {<<"S", k>> : k \in Seeks}
Tails == {"eof", "trunc", "bad"}
Init == /\ r \in {MkReader(n, t, FALSE) : n \in 0 .. MaxN, t \in Tails} \cup
                 {MkReader(1, "eof", TRUE), MkReader(0, "trunc", TRUE)}
        /\ hist = <<>>
After(op) == IF op[1] = "R" THEN {x[3] : x \in ReadReplies(r)} ELSE {x[3] : x \in SeekReplies(r, op[2])}
Next == /\ Len(hist) < Depth
        /\ r.mode # "any"
        /\ \E op \in Ops : r' \in After(op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<r, hist>>
Last2 == IF Len(hist) < 2 THEN hist ELSE SubSeq(hist, Len(hist) - 1, Len(hist))
View == <<r, Last2>>
Kind == IF r.still THEN "still" ELSE "seq"
Emit == Len(hist) > 0 => PrintT(<<"HIST", r.n, r.tail, Kind, hist>>)

(* What every behaviour satisfies *)
TypeOK == /\ r.pos \in 0 .. r.n
          /\ r.mode \in {"ok", "dead", "any"}
(* frames come in order, once each; a failure is only reported at the end *)
InOrder == [][/\ r'.pos >= r.pos
              /\ r'.n = r.n /\ r'.tail = r.tail
              /\ r.mode = "dead" => r'.pos = r.pos \/ r.still]_<<r, hist>>
(* seeking by k is reading k times *)
RECURSIVE ReadK(_, _)
ReadK(S, k) == IF k = 0 THEN S ELSE ReadK(UNION {{x[3] : x \in ReadReplies(q)} : q \in {q \in S : q.mode # "any"}}, k - 1)
SeekIsRead == \A k \in Seeks : r.mode = "ok" /\ k > 0 =>
  \A x \in SeekReplies(r, k) :
     /\ x[1] => x[2] = OK
     /\ x[1] /\ ~(r.still /\ r.tail = "trunc") => x[3] \in ReadK({r}, k)
     /\ ~x[1] => \E j \in 1 .. k : x[3] \in ReadK({r}, j)
                 \/ (r.still /\ r.tail = "trunc")
=============================================================================
