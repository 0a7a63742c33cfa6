------------------------------ MODULE Bindings ------------------------------
(* The Python and JavaScript bindings: every call is one of the library's,   *)
(* with parameters given as a dictionary, the outputs returned as one value, *)
(* and errors as exceptions.  Events have the library's fields; ret is the   *)
(* error an exception stands for, and other exceptions are numbered from 100.*)
(*   100  unrecognized parameters (or another plain exception)               *)
(*   101  IndexError                                                         *)
(*   102  any other                                                          *)
EXTENDS Cli

(* e.par: [k |-> "none"] or [k |-> "dict", x, r, thr, f] *)
PyBad(d) ==
  \/ d.r.k = "bad" \/ d.f.k = "bad"
  \/ d.r.k = "n" /\ d.r.n = 0
  \/ d.f.k = "n" /\ d.f.n > 31
  \/ d.thr.k = "t" /\ ~ThrValid(d.thr.hi, d.thr.lo)
DictErrors(d) == IF d.k = "none" THEN {}
                 ELSE (IF d.x THEN {100} ELSE {}) \cup (IF PyBad(d) THEN {PARAM} ELSE {})
DictPar(d) == IF d.k = "none" THEN DefPar
              ELSE [r |-> IF d.r.k = "n" THEN d.r.n ELSE 0,
                    thr |-> IF d.thr.k = "t" THEN [ppb |-> d.thr.ppb, p |-> d.thr.p, q |-> d.thr.q] ELSE NoThr,
                    f |-> IF d.f.k = "n" THEN d.f.n ELSE 0]
Slot == 1000
With(s, e) == [s EXCEPT !.par = Put(@, Slot, DictPar(e.par))]
Without(S) == {[s EXCEPT !.par = Drop(@, Slot)] : s \in S}
(* both lists are always asked for *)
NF(e) == IF "nf" \in DOMAIN e THEN e.nf ELSE 0
Lib(e, op) == [op |-> op, p |-> Slot, mask |-> 15, nf |-> NF(e), nx |-> 0, we |-> TRUE,
               rwn |-> e.ret # OK, rhn |-> e.ret # OK,
               cwv |-> IF e.ret = OK /\ "lw" \in DOMAIN e THEN Len(e.lw) ELSE 0,
               chv |-> IF e.ret = OK /\ "lh" \in DOMAIN e THEN Len(e.lh) ELSE 0, ok |-> e.ret = OK, same |-> TRUE] @@ e

(* no memory is kept by calls that keep nothing *)
BindStep(c, s, e) ==
  IF "leak" \in DOMAIN e /\ e.leak # 0 THEN {} ELSE
  IF "held" \in DOMAIN e /\ e.held THEN {} ELSE      \* a closed image still has its file open
  CASE e.op \in {"bdetect", "bcreate"} /\ NF(e) > 0 /\ e.ret = NOMEM -> {s}
    [] e.op \in {"bleak", "bgc"} -> Yes(e.ret = OK, s)
    [] e.op = "bdetect" ->
         IF DictErrors(e.par) # {} THEN Yes(e.ret \in DictErrors(e.par), s)
         \* pages of another size than the first: an invalid image, unless something else is wrong too
         ELSE IF "mixed" \in DOMAIN e /\ e.mixed /\ e.ret = OK THEN {}
         ELSE IF "mixed" \in DOMAIN e /\ e.mixed /\ e.ret = INVAL THEN {s}
         ELSE Without(Step(c, With(s, e), Lib(e, "detect")))
    [] e.op = "bcreate" ->
         IF DictErrors(e.par) # {} THEN Yes(e.ret \in DictErrors(e.par), s)
         ELSE Without(Step(c, With(s, e), Lib(e, "create")))
    [] e.op = "banalyze" -> Step(c, s, Lib(e, "analyze"))
    [] e.op = "bresults" -> Step(c, s, Lib(e, "results"))
    [] e.op = "bdestroy" -> Step(c, s, Lib(e, "destroy"))
    [] e.op = "bdfile" ->
         IF DictErrors(e.par) # {} THEN Yes(e.ret \in DictErrors(e.par), s)
         ELSE Without(Step(c, With(s, e), Lib(e, "dfile")))
    [] e.op = "bmethods" ->       \* names, thresholds, and lookup by name
         Yes(/\ [k \in 1 .. Len(e.methods) |-> e.methods[k][1]] = MethodNames
             /\ \A k \in 1 .. Len(e.methods) : /\ Abs(e.methods[k][2] - DefThr(e.methods[k][1]).ppb) <= 1
                                               /\ e.methods[k][3] /\ e.methods[k][4]
             /\ e.nomethods = <<>>
             /\ e.range = c.range
             /\ e.readers = (IF e.js THEN <<>> ELSE c.readers)
             /\ e.version = e.libversion, s)
    [] e.op = "bindex" ->         \* indexing of an image buffer of frames of a file
         LET f == Files[e.file]
             st == StreamOf(e.rd, e.file)
             n == Frames(st)  w == st.w  h == st.h
             q == e.ix
             out == IF Len(q) = 1 THEN q[1] \notin 0 .. (n * w * h - 1)
                    ELSE IF Len(q) = 2 THEN n = 0 \/ q[1] \notin 0 .. (h - 1) \/ q[2] \notin 0 .. (w - 1)
                    ELSE q[1] \notin 0 .. (n - 1) \/ q[2] \notin 0 .. (h - 1) \/ q[3] \notin 0 .. (w - 1)
             at == IF Len(q) = 1 THEN q[1] ELSE IF Len(q) = 2 THEN q[1] * w + q[2] ELSE (q[1] * h + q[2]) * w + q[3]
             k == at \div (w * h) + 1
             p == at % (w * h)
         IN IF out THEN Yes(e.ret = 101, s)
            ELSE Yes(e.ret = OK /\ (st.fmt # "X" => (InRange(f.b, st, st.fr[At1(st, k)], p) => PixelOK(f.b, st, st.fr[At1(st, k)], p, e.v[1], e.v[2]))), s)
    [] OTHER -> AllStep(c, s, e)
=============================================================================
