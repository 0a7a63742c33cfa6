-------------------------------- MODULE Cli ---------------------------------
(* The command line tools as relations between arguments, input and what     *)
(* they print and exit with.  An event e of resdet is                        *)
(*   opts    the options in order: [o |-> letter, k |-> kind, ...]           *)
(*   src     "none" (no input argument), "missing" (no such file) or "file"  *)
(*   file, nullpath, pb        the input, as for the library's calls         *)
(*   exit, err                 exit status, was something written to stderr? *)
(*   form    what standard output is: empty, best, lists, conf, table,       *)
(*           readers, help, version, other; and its contents                 *)
(*   seen, past  frames announced as analyzed and as skipped, as ranges      *)
EXTENDS Api

(* ------------------------------------------------- results as they are printed *)
Counted(a, d) == LET acc == IF d = "w" THEN a.aw ELSE a.ah
                 IN [acc |-> acc, len |-> IF d = "w" THEN a.w ELSE a.h,
                     den |-> Den(a.w, a.h, a.m, d, a.r) * a.n]
Exact(a, d) == LET c == Counted(a, d) IN a.n = 1 \/ IsPow2(c.den \div a.n)

(* l: <<size, ppb>> with confidences rounded to within t *)
Printed(a, d, l, t) ==
  LET c == Counted(a, d)
      KDoc(x) == FilterDoc(x, c.len, a.r, a.f)
      KCode(x) == FilterCode(x, c.len, a.r, a.f)
      K(x) == TRUE
  IN IF a.f = 0 THEN ListTol(l, c.len, c.acc, c.den, a.thr, Exact(a, d), K, t)
     ELSE \/ ListTol(l, c.len, c.acc, c.den, a.thr, Exact(a, d), KDoc, t)
          \/ ListTol(l, c.len, c.acc, c.den, a.thr, Exact(a, d), KCode, t)
(* sizes without confidences: give them those they should have *)
Fill(a, d, q) == LET c == Counted(a, d) IN
  [k \in 1 .. Len(q) |-> IF q[k] \in DOMAIN c.acc THEN <<q[k], Ppb(c.acc[q[k]][1], c.den)>> ELSE <<q[k], -1000000000>>]
(* where the counts are uncertain, the order is too *)
Certain(a, d) == LET c == Counted(a, d) IN \A x \in DOMAIN c.acc : c.acc[x][1] = c.acc[x][2]
Sizes(a, d, q) == IF Certain(a, d) THEN Printed(a, d, Fill(a, d, q), 200)
                  ELSE LET n == Len(q) IN n >= 1 /\ q[n] = Counted(a, d).len /\ Cardinality({q[k] : k \in 1 .. n}) = n
                                          /\ \A k \in 1 .. (n - 1) : q[k] \in DOMAIN Counted(a, d).acc
Kept(a, d, x) == a.f = 0 \/ FilterCode(x, Counted(a, d).len, a.r, a.f) \/ FilterDoc(x, Counted(a, d).len, a.r, a.f)
Surely(a, d, x) == a.f = 0 \/ (FilterCode(x, Counted(a, d).len, a.r, a.f) /\ FilterDoc(x, Counted(a, d).len, a.r, a.f))
MayBeIn(a, d) == LET c == Counted(a, d) IN {x \in DOMAIN c.acc : Kept(a, d, x) /\ MayKeep(c.acc[x][2], c.den, a.thr, Exact(a, d))}
MustBeIn(a, d) == LET c == Counted(a, d) IN {x \in DOMAIN c.acc : Surely(a, d, x) /\ MustKeep(c.acc[x][1], c.den, a.thr, Exact(a, d))}
Best(a, d, x) ==
  LET c == Counted(a, d) IN
  \/ x = c.len /\ MustBeIn(a, d) = {}
  \/ x \in MayBeIn(a, d) /\ \A y \in MustBeIn(a, d) : Ppb(c.acc[y][1], c.den) <= Ppb(c.acc[x][2], c.den) + 200

Found(a) == [may |-> MayBeIn(a, "w") \cup MayBeIn(a, "h") # {}, must |-> MustBeIn(a, "w") \cup MustBeIn(a, "h") # {}]

(* --------------------------------------------------------------- options *)
Opt0 == [v |-> -1, m |-> "", ht |-> FALSE, tb |-> <<>>, hr |-> FALSE, rb |-> <<>>, x |-> [k |-> "none"], r |-> [k |-> "none"],
         f |-> [k |-> "none"], off |-> 0, n |-> 0, prog |-> FALSE, stop |-> ""]
KnownReader(c, b) == \E i \in 1 .. Len(c.readers) : LowerSeq(c.rnames[i]) = LowerSeq(b)
Apply(c, p, o) ==
  CASE o.o = "v" -> [p EXCEPT !.v = o.v]
    [] o.o = "m" -> [p EXCEPT !.m = o.s]
    [] o.o = "t" -> [p EXCEPT !.ht = TRUE, !.tb = o.b]
    [] o.o = "R" -> IF KnownReader(c, o.b) THEN [p EXCEPT !.hr = TRUE, !.rb = o.b]
                    ELSE [p EXCEPT !.stop = IF o.b = <<108, 105, 115, 116>> THEN "list" ELSE "noreader"]
    [] o.o = "x" -> [p EXCEPT !.x = o]
    [] o.o = "r" -> [p EXCEPT !.r = o]
    [] o.o = "f" -> [p EXCEPT !.f = o]
    [] o.o = "o" -> IF o.k = "bad" THEN [p EXCEPT !.stop = "bad"] ELSE [p EXCEPT !.off = o.n]
    [] o.o = "n" -> IF o.k = "bad" \/ o.n = 0 THEN [p EXCEPT !.stop = "bad"] ELSE [p EXCEPT !.n = o.n]
    [] o.o = "p" -> [p EXCEPT !.prog = TRUE]
    [] o.o = "h" -> [p EXCEPT !.stop = "help"]
    [] o.o = "V" -> [p EXCEPT !.stop = "version"]
    [] OTHER -> [p EXCEPT !.stop = "bad"]        \* unknown, or without its argument
RECURSIVE Options(_, _, _, _)
Options(c, q, k, p) == IF k > Len(q) \/ p.stop # "" THEN p ELSE Options(c, q, k + 1, Apply(c, p, q[k]))

BadArgs(p) ==
  \/ p.m # "" /\ ~(\E k \in 1 .. 4 : MethodNames[k] = p.m)
  \/ p.x.k = "bad" \/ p.r.k = "bad" \/ p.f.k = "bad"
  \/ p.r.k = "n" /\ p.r.n = 0
  \/ p.f.k = "n" /\ p.f.n > 31
  \/ p.ht /\ p.hr
(* "auto": lossy formats leave traces at multiples of 1/8 of the size, or so *)
XX(q) == [k \in 1 .. Len(q) |-> q[k]]
Xmp4 == XX(<<109, 112, 52>>)    Xmkv == XX(<<109, 107, 118>>)   Xwebp == XX(<<119, 101, 98, 112>>)   Xwebm == XX(<<119, 101, 98, 109>>)
Xavif == XX(<<97, 118, 105, 102>>)   Xheic == XX(<<104, 101, 105, 99>>)
AutoFilter(name) ==
  LET x == LowerSeq(ExtOfName(name))
  IN CASE x \in {Xjpg, Xjpeg, Xmp4, Xmkv} -> 3
       [] x \in {Xwebp, Xwebm} -> 2
       [] x \in {Xavif, Xheic} -> 5
       [] OTHER -> 0
ParamsOf(p, name) == [r |-> IF p.r.k = "n" THEN p.r.n ELSE 0,
                thr |-> IF p.x.k = "t" THEN [ppb |-> p.x.ppb, p |-> p.x.p, q |-> p.x.q] ELSE NoThr,
                f |-> IF p.f.k = "n" THEN p.f.n ELSE IF p.f.k = "auto" THEN AutoFilter(name) ELSE 0]

(* ------------------------------------------------------------------ tool *)
Fails(e) == e.exit = 1 /\ e.err /\ e.form = "empty"
(* e.says: the errors whose messages are written *)
Says(e, codes) == "says" \in DOMAIN e => \E k \in 1 .. Len(e.says) : e.says[k] \in codes
Shows(p, a, e) ==
  CASE p.v = 0 -> /\ e.form = "empty" /\ e.exit \in {0, 1}
                  /\ e.exit = 0 => Found(a).may
                  /\ e.exit = 1 => ~Found(a).must
    [] p.v = 1 -> e.exit = 0 /\ e.form = "best" /\ Best(a, "w", e.best[1]) /\ Best(a, "h", e.best[2])
    [] p.v = 2 -> e.exit = 0 /\ e.form = "lists" /\ Sizes(a, "w", e.qw) /\ Sizes(a, "h", e.qh)
    [] p.v = 3 -> e.exit = 0 /\ e.form = "conf" /\ Printed(a, "w", e.lw, 700) /\ Printed(a, "h", e.lh, 700)
    [] p.v = -1 ->
         /\ e.exit = 0 /\ e.form = "table"
         /\ e.given = <<a.w, a.h>>
         /\ Printed(a, "w", Append(e.lw, <<a.w, -1000000000>>), 50500)
         /\ Printed(a, "h", Append(e.lh, <<a.h, -1000000000>>), 50500)
         /\ e.best = <<IF e.lw = <<>> THEN a.w ELSE e.lw[1][1], IF e.lh = <<>> THEN a.h ELSE e.lh[1][1]>>
         /\ e.notup = (e.lw = <<>> /\ e.lh = <<>>)
    [] OTHER -> TRUE

(* frames are announced by number when asked for *)
Announces(p, last, e) == IF p.prog THEN e.seen = <<<<p.off + 1, last>>>> /\ e.past = (IF p.off = 0 THEN <<>> ELSE <<<<1, p.off>>>>)
                         ELSE e.seen = <<>> /\ e.past = <<>>
(* the input as an "open" of the library *)
AsOpen(p, e) == [op |-> IF p.hr THEN "openr" ELSE "open", hast |-> p.ht \/ p.hr, tb |-> IF p.hr THEN p.rb ELSE p.tb, pb |-> e.pb]
Runs(c, p, e, rd) ==
  IF rd = "none" THEN Fails(e) /\ Says(e, {UNSUPP})
  ELSE LET st == StreamOf(rd, e.file)
           N == Frames(st)
           L == Len(st.fr)
           last == IF p.n > 0 /\ p.n < N - p.off THEN p.off + p.n ELSE N      \* frames off+1 .. last are analyzed
           full == p.n > 0 /\ p.off <= N /\ p.n <= N - p.off                   \* without reaching the end
           fi == IF e.file = 0 THEN <<>> ELSE Files[e.file].fi
       IN IF st.st = "err" THEN Fails(e) /\ Says(e, OpenErrors(c, e, rd, st))
          ELSE IF st.st # "ok" THEN Fails(e) \/ e.exit = 0 \/ (p.v = 0 /\ e.exit = 1)
          ELSE IF c.pmax > 0 /\ Exceeds(st.w, st.h, c.pmax) THEN Fails(e) /\ Says(e, {TOOBIG})
          ELSE IF st.tail = "any" /\ ~full THEN Fails(e) \/ e.exit = 0 \/ (p.v = 0 /\ e.exit = 1)
          ELSE IF p.off >= N THEN Fails(e)
          ELSE IF (~full /\ st.tail # "eof") \/ \E k \in (p.off + 1) .. last : Images[fi[At1(st, k)]].bad THEN Fails(e) /\ Says(e, {INVAL})
          ELSE Announces(p, last, e) /\ Shows(p, AnalyzeFrames(NewAnalysis(c, MethodOf(p.m), st.w, st.h, ParamsOf(p, e.pb)), SubSeq(fi, 1, L), p.off + 1, last, 1), e)
CliOK(c, e) ==
  LET p == Options(c, e.opts, 1, Opt0) IN
  CASE p.stop = "help"     -> e.exit = 0 /\ e.form = "help"
    [] p.stop = "version"  -> e.exit = 0 /\ e.form = "version" /\ e.readers = c.readers
    [] p.stop = "list"     -> e.exit = 0 /\ e.form = "readers" /\ e.readers = c.readers
    [] p.stop = "noreader" -> e.exit = 1 /\ e.err /\ e.form = "readers" /\ e.readers = c.readers
    [] p.stop = "bad"      -> Fails(e)
    [] e.src = "none"      -> Fails(e)
    [] BadArgs(p)          -> Fails(e)
    [] e.src = "missing"   -> \E rd \in Choice(c, AsOpen(p, e)) : Fails(e) /\ Says(e, IF rd = "none" THEN {UNSUPP} ELSE OpenErrors(c, e, rd, NoStream("err", "none")))
    [] OTHER -> \E rd \in Choice(c, AsOpen(p, e)) : Runs(c, p, e, rd)

(* ------------------------------------------------------------------- imgread *)
(* Writes the frames of its input as a PFM sequence; e.out holds the bytes written. *)
RECURSIVE FramesOut(_, _, _, _)
Halves(b, st, k) ==     \* the samples of frame k of a gray PFM, top to bottom, as halves of their bits
  [i \in 1 .. (2 * st.w * st.h) |->
     LET p == (i - 1) \div 2
         row == p \div st.w
         at == (st.h - 1 - row) * st.w + (p % st.w)
         x == Bits(b, st.fr[k].off + 4 * at, st.fr[k].le)
     IN x[((i - 1) % 2) + 1]]
FramesOut(x, out, so, k) ==
  IF k > Len(so.fr) THEN TRUE
  ELSE so.fr[k].kind = 102 /\ PixelsOK(x, k, Halves(out, so, k), 0) /\ FramesOut(x, out, so, k + 1)
ImgreadOK(c, e) ==
  \E rd \in Choice(c, [op |-> "open", hast |-> FALSE, tb |-> <<>>, pb |-> e.pb]) :
    IF rd = "none" \/ e.src # "file" THEN e.exit = 1 /\ e.err /\ (e.src = "none" \/ Says(e, IF rd = "none" THEN {UNSUPP} ELSE OpenErrors(c, e, rd, NoStream("err", "none"))))
    ELSE LET st == StreamOf(rd, e.file)
             so == Stream(e.out, "PFM")
             fails == st.st = "err" \/ (st.st = "ok" /\ st.tail # "eof")
         IN IF st.st \notin {"ok", "err"} \/ (st.tail = "any" /\ st.st = "ok") THEN TRUE
            ELSE /\ e.exit = (IF fails \/ ~e.writable THEN 1 ELSE 0)
                 /\ e.exit = 1 => e.err
                 /\ (fails /\ e.writable) => Says(e, IF st.st = "err" THEN OpenErrors(c, e, rd, st) ELSE {INVAL})
                 /\ (st.st = "ok" /\ e.writable) =>
                      IF st.fr = <<>> THEN e.out = <<>>
                      ELSE /\ so.st = "ok" /\ so.tail = "eof" /\ so.w = st.w /\ so.h = st.h
                           /\ Len(so.fr) = Frames(st)
                           /\ FramesOut([st |-> st, file |-> e.file], e.out, so, 1)

(* ------------------------------------------------------------------- profile *)
(* Compares what each method finds in the images of a dictionary to the sizes  *)
(* known of them.  An event e of profile is                                    *)
(*   items    the dictionary: [src, file, pb, k |-> "sizes", kw, kh], or k is   *)
(*            "bad" (something else than sizes) or "cut" (the end comes first)  *)
(*   rep      for each image named, a line <<method, more, less, s, ns>> for    *)
(*            each method without an error                                     *)
(*   totals   a line for each method                                           *)
(*   clock    the times of the clock it was given, at each look                *)
Input(c, it) == LET rd == CHOOSE x \in Choice(c, [op |-> "open", hast |-> FALSE, tb |-> <<>>, pb |-> it.pb]) : TRUE
                IN IF it.src # "file" \/ rd = "none" THEN [st |-> "err"] ELSE StreamOf(rd, it.file)
Fate(c, it) ==
  LET st == Input(c, it) IN
  IF st.st # "ok" \/ st.tail # "eof" THEN "skipped"
  ELSE IF it.k # "sizes" THEN "stop"
  ELSE IF Frames(st) = 0 \/ \E k \in 1 .. Frames(st) : Images[Files[it.file].fi[At1(st, k)]].bad THEN "fails"
  ELSE "compared"
RECURSIVE Reached(_, _, _)
Reached(c, q, k) == IF k > Len(q) THEN Len(q) ELSE IF Fate(c, q[k]) \in {"stop", "fails"} THEN k ELSE Reached(c, q, k + 1)
SetOf(q) == {q[k] : k \in 1 .. Len(q)}
MayMust(a) == TLCEval([mw |-> MustBeIn(a, "w"), mh |-> MustBeIn(a, "h"), pw |-> MayBeIn(a, "w"), ph |-> MayBeIn(a, "h")])
Minus(w, kw, h, kh) == Cardinality(w \ kw) + Cardinality(h \ kh)
Compared(c, it, l) ==
  LET st == Input(c, it)
      fi == Files[it.file].fi
      kw == SetOf(it.kw)
      kh == SetOf(it.kh)
      OK1(f, x) == /\ x[2] \in Minus(f.mw, kw, f.mh, kh) .. Minus(f.pw, kw, f.ph, kh)
                   /\ x[3] \in Minus(kw, f.pw, kh, f.ph) .. Minus(kw, f.mw, kh, f.mh)
  IN /\ Len(l) = Len(MethodNames)
     /\ \A k \in 1 .. Len(l) :
          /\ l[k][1] = MethodNames[k]
          /\ OK1(MayMust(AnalyzeFrames(NewAnalysis(c, MethodNames[k], st.w, st.h, DefPar), SubSeq(fi, 1, Len(st.fr)), 1, Frames(st), 1)), l[k])
RECURSIVE LinesOf(_, _, _)
LinesOf(rep, m, k) == IF k > Len(rep) THEN <<>> ELSE SelectSeq(rep[k], LAMBDA l : l[1] = m) \o LinesOf(rep, m, k + 1)
RECURSIVE Sum(_, _, _)     \* of column x
Sum(q, x, k) == IF k > Len(q) THEN 0 ELSE q[k][x] + Sum(q, x, k + 1)
RECURSIVE Time(_, _, _)
Time(q, k, t) == IF k > Len(q) THEN t
                 ELSE LET n == t[2] + q[k][5] IN Time(q, k + 1, IF n >= 1000000000 THEN <<t[1] + q[k][4] + 1, n - 1000000000>> ELSE <<t[1] + q[k][4], n>>)
(* each time is that between two looks at the clock (if it was the one that is known) *)
Clocked(clock, l) == LET U(s) == <<l[4] + clock[s][1], l[5] + clock[s][2]>>
                     IN \E i, j \in 1 .. Len(clock) :
                          /\ i < j
                          /\ clock[j] = IF U(i)[2] >= 1000000000 THEN <<U(i)[1] + 1, U(i)[2] - 1000000000>> ELSE U(i)
ProfileOK(c, e) ==
  IF e.items = <<>> THEN e.exit = 1 /\ e.err /\ e.form = "empty"        \* no dictionary
  ELSE LET n == Reached(c, e.items, 1)
           F(k) == Fate(c, e.items[k])
       IN /\ e.form = "profile" /\ Len(e.rep) = n
          /\ \A k \in 1 .. n : IF F(k) = "compared" THEN Compared(c, e.items[k], e.rep[k]) ELSE e.rep[k] = <<>>
          /\ e.clock = <<>> \/ \A k \in 1 .. n : \A i \in 1 .. Len(e.rep[k]) : Clocked(e.clock, e.rep[k][i])
          /\ (\E k \in 1 .. n : F(k) \in {"skipped", "fails"}) => e.err
          /\ e.exit = (IF (\E k \in 1 .. n : F(k) \in {"stop", "fails"})
                          \/ (\E k \in 1 .. n : F(k) = "skipped" /\ e.items[k].k = "cut") THEN 1 ELSE 0)
          /\ Len(e.totals) = Len(MethodNames)
          /\ \A k \in 1 .. Len(e.totals) :
               LET m == MethodNames[k]
                   q == LinesOf(e.rep, m, 1)
                   t == e.totals[k]
               IN t[1] = m /\ t[2] = Sum(q, 2, 1) /\ t[3] = Sum(q, 3, 1) /\ <<t[4], t[5]>> = Time(q, 1, <<0, 0>>)

(* ------------------------------------------------------------- visualize.sh *)
(* Draws what resdet detects over a picture by the tool spec.  An event e is   *)
(*   opts     its options, the last of each counts: [o, b |-> bytes, n |-> the  *)
(*            number they stand for]; those of -r are ropts, of -s are words    *)
(*   args     how many operands;  missing   a tool that is not installed       *)
(*   w, hh    the size of the image as ImageMagick knows it (0: it does not)   *)
(*   works    can spec make the picture and the output be written?             *)
(*   drawn    was there an output;  base    of what image and words, and        *)
(*   lines    <<x, y, x, y>> drawn over it, with strokes of <<color, width>>   *)
FinalOpt(q, o, d) == LET I == {k \in 1 .. Len(q) : q[k].o = o} IN IF I = {} THEN d ELSE q[CHOOSE k \in I : \A j \in I : j <= k]
Ends(l) == {<<l[1], l[2]>>, <<l[3], l[4]>>}
Undrawn(e) == e.exit \in 1 .. 127 /\ e.err /\ ~e.drawn
Green == [b |-> <<103, 114, 101, 101, 110>>]
VisualOK(c, e) ==
  LET q == e.opts
      I == {k \in 1 .. Len(q) : q[k].o \in {"h", "bad"}}
      stop == IF I = {} THEN "" ELSE q[CHOOSE k \in I : \A j \in I : k <= j].o
      len == FinalOpt(q, "l", [n |-> 50]).n
      color == FinalOpt(q, "c", Green).b
      thick == FinalOpt(q, "t", [b |-> <<49>>]).b
      Detects(x) == CliOK(c, x @@ [opts |-> e.ropts \o <<[o |-> "v", v |-> 1]>>, src |-> e.src, file |-> e.file, pb |-> e.pb, seen |-> <<>>, past |-> <<>>])
  IN CASE e.missing # "" /\ (stop # "" \/ e.args < 2) -> e.exit \in 0 .. 127 /\ ~e.drawn      \* which comes first is open
       [] e.missing # "" -> Undrawn(e) /\ (e.missing # "identify" => e.exit = 1)
       [] stop = "h"     -> e.exit = 0 /\ e.help /\ ~e.drawn
       [] stop = "bad" \/ e.args < 2 -> e.exit = 2 /\ e.err /\ ~e.drawn
       [] OTHER ->
            IF e.w = 0 \/ ~e.works THEN Undrawn(e)
            ELSE IF ~e.drawn THEN Undrawn(e) /\ Detects([exit |-> 1, err |-> TRUE, form |-> "empty"])
            ELSE /\ e.exit = 0
                 /\ e.base = [words |-> e.words, image |-> e.pb]
                 /\ Len(e.lines) = 2
                 /\ \A k \in 1 .. 2 : e.strokes[k] = <<color, thick>>
                 /\ \E x, y \in {1, 2} :      \* at the width, and at the height
                      LET dw == e.lines[x][1]
                          dh == e.lines[y][2]
                      IN /\ x # y
                         /\ Ends(e.lines[x]) = {<<dw, e.hh - len>>, <<dw, e.hh>>}
                         /\ Ends(e.lines[y]) = {<<e.w - len, dh>>, <<e.w, dh>>}
                         /\ Detects([exit |-> 0, err |-> FALSE, form |-> "best", best |-> <<dw, dh>>])

AllStep(c, s, e) ==
  CASE e.op = "cli" -> Yes(CliOK(c, e), s)
    [] e.op = "profile" -> Yes(ProfileOK(c, e), s)
    [] e.op = "visual" -> Yes(VisualOK(c, e), s)
    [] e.op = "imgread" -> Yes(ImgreadOK(c, e), s)
    [] OTHER -> Step(c, s, e)
=============================================================================
