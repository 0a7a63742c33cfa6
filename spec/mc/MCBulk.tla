------------------------------- MODULE MCBulk -------------------------------
(* The calls that read a whole file (read_image, resdetect_file) and the one *)
(* that analyzes an array of images (resdetect), written as the machines     *)
(* they are: opening, reading, growing, analyzing, listing, releasing, with  *)
(* every allocation in its place.  The reader underneath replies whatever    *)
(* ReaderCore allows; files end well or not; the image, or some number of    *)
(* them, may exceed the pixel limit; any allocation may fail, alone or with  *)
(* all that follow.  However it goes, the call ends as its definition says   *)
(* (Right), never writes past the room it has (Within), and holds nothing    *)
(* afterwards but what it returned (Released).  Every case is printed and    *)
(* replayed on the real library (checks R08, M01).                           *)
EXTENDS ReaderCore, Sequences, TLC

CONSTANTS MaxFrames, MaxLimit, MaxFault
None == 99
VARIABLES call,       \* "readimg", "dfile", "detect"
          st,         \* "ok" or "err": the header
          bad,        \* the frame that holds a value that is not finite, 0 for none
          lim,        \* how many images fit the limit (None: any number)
          fk, al,     \* the allocation that fails, and whether all later ones do
          na, faulted, pc, rd, file, held, room, n, err
vars == <<call, st, bad, lim, fk, al, na, faulted, pc, rd, file, held, room, n, err>>

Files == {MkReader(k, t, FALSE) : k \in 0 .. MaxFrames, t \in {"eof", "trunc", "bad"}} \cup {MkReader(1, "eof", TRUE), MkReader(0, "trunc", TRUE)}
Init == /\ call \in {"readimg", "dfile", "detect"} /\ st \in {"ok", "err"}
        /\ file \in Files /\ rd = file
        /\ bad \in 0 .. (IF call = "readimg" \/ st = "err" THEN 0 ELSE file.n)
        /\ lim \in 0 .. MaxLimit \cup {None}
        /\ fk \in 0 .. MaxFault /\ al \in (IF fk = 0 THEN {FALSE} ELSE BOOLEAN)
        \* an array of images has no header and no tail
        /\ call = "detect" => st = "ok" /\ file.tail = "eof" /\ ~file.still
        \* an image that is too big is too big in every file
        /\ na = 0 /\ faulted = FALSE /\ held = {} /\ room = 0 /\ n = 0 /\ err = OK
        /\ pc = IF call = "detect" THEN "enter" ELSE "image"

(* allocate block b and go on at then, or fail and end *)
Fails(k) == fk > 0 /\ (k = fk \/ (al /\ k > fk))
Alloc(b, then) ==
  /\ na' = na + 1
  /\ IF Fails(na + 1) THEN /\ faulted' = TRUE /\ err' = NOMEM /\ pc' = "end" /\ UNCHANGED <<held, room>>
     ELSE /\ pc' = then /\ held' = held \cup {b} /\ UNCHANGED <<faulted, err>>
          /\ room' = IF b = "images" THEN room + 1 ELSE room
  /\ UNCHANGED <<rd, n>>
Goto(p) == pc' = p /\ UNCHANGED <<na, faulted, err, rd, n, held, room>>
Stop(e) == err' = e /\ pc' = "end" /\ UNCHANGED <<na, faulted, rd, n, held, room>>
Reply(x, then) == rd' = x[3] /\ err' = x[2] /\ UNCHANGED <<na, faulted, held, room>>
                  /\ IF x[1] THEN n' = n + 1 /\ pc' = then ELSE n' = n /\ pc' = "end?"

Step ==
  \/ pc = "enter" /\ IF file.n = 0 THEN Stop(NOIMG) ELSE Goto("analysis")
  \/ pc = "image" /\ Alloc("image", "reader")
  \/ pc = "reader" /\ Alloc("reader", "header")
  \/ pc = "header" /\ IF st = "err" THEN Stop(INVAL) ELSE IF lim = 0 THEN Stop(TOOBIG) ELSE Goto("images")
  \/ pc = "images" /\ Alloc("images", IF call = "dfile" THEN "analysis" ELSE "read")
  \/ pc = "read" /\ \E x \in ReadReplies(rd) : Reply(x, IF call = "dfile" THEN "scratch" ELSE IF n + 1 >= lim THEN "probe" ELSE "images")
  \* all the limit allows was read: is there another image?
  \/ pc = "probe" /\ \E x \in SeekReplies(rd, 1) : IF x[1] THEN Stop(TOOBIG) ELSE Stop(x[2])
  \/ pc = "analysis" /\ Alloc("analysis", "limit")
  \/ pc = "limit" /\ IF lim = 0 THEN Stop(TOOBIG) ELSE Goto("coeffs")
  \/ pc = "coeffs" /\ Alloc("coeffs", "plan")
  \/ pc = "plan" /\ Alloc("plan", "xresult")
  \/ pc = "xresult" /\ Alloc("xresult", "yresult")
  \/ pc = "yresult" /\ Alloc("yresult", IF call = "dfile" THEN "read" ELSE "next")
  \/ pc = "next" /\ IF n < file.n THEN n' = n + 1 /\ pc' = "scratch" /\ UNCHANGED <<na, faulted, err, rd, held, room>> ELSE Goto("widths")
  \/ pc = "scratch" /\ IF n = bad THEN Stop(INVAL) ELSE Alloc("scratch", IF call = "dfile" THEN "read" ELSE "next")
  \/ pc = "end?" /\ IF err # OK \/ call = "readimg" THEN Goto("end") ELSE IF n = 0 THEN Stop(NOIMG) ELSE Goto("widths")
  \/ pc = "widths" /\ Alloc("widths", "heights")
  \/ pc = "heights" /\ Alloc("heights", "end")
  \/ pc = "end" /\ held' = (IF err # OK THEN {} ELSE held \cap (IF call = "readimg" THEN {"images"} ELSE {"widths", "heights"}))
                /\ pc' = "done" /\ UNCHANGED <<na, faulted, err, rd, n, room>>
Next == Step /\ UNCHANGED <<call, st, bad, lim, fk, al, file>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- the definition: what may be returned ------------------------------------ *)
Frames_ == file.n
Tail_ == IF file.tail = "eof" THEN {} ELSE {INVAL}
Errs == IF st = "err" THEN {INVAL}
        ELSE IF lim = 0 THEN {TOOBIG} \cup (IF call = "detect" /\ Frames_ = 0 THEN {NOIMG} ELSE {})
        ELSE IF call = "readimg" THEN (IF Frames_ > lim THEN {TOOBIG} \cup Tail_ ELSE Tail_)
        ELSE Tail_ \cup (IF bad > 0 THEN {INVAL} ELSE {}) \cup (IF Frames_ = 0 /\ file.tail = "eof" THEN {NOIMG} ELSE {})
Right == pc = "done" =>
  IF err = OK THEN Errs = {} /\ n = Frames_ ELSE err \in Errs \/ (faulted /\ err = NOMEM)
Within == pc = "read" => room > (IF call = "readimg" THEN n ELSE 0)
Limited == room <= lim
Released == pc = "done" => held = IF err # OK THEN {} ELSE IF call = "readimg" THEN {"images"} ELSE {"widths", "heights"}
Ends == <>(pc = "done")
Emit == pc = "done" => PrintT("BULK " \o call \o " " \o st \o " " \o ToString(file.still) \o " " \o ToString(Frames_) \o " " \o file.tail \o " " \o ToString(bad) \o " " \o ToString(lim) \o " " \o ToString(fk) \o " " \o ToString(al))
=============================================================================
