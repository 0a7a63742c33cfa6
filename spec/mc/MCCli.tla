-------------------------------- MODULE MCCli --------------------------------
(* The command line tool as a machine - options one by one, then opening,    *)
(* skipping, reading and analyzing frame by frame, and printing - run on     *)
(* every short list of options over a set of sources.  Whenever it ends, the *)
(* relation between arguments, input and output that Cli.tla gives allows    *)
(* what it shows, and rejects everything that differs from that in something *)
(* promised (Right).  Options of different kinds can be exchanged, and the   *)
(* last of several of a kind counts (Independent).  The lists and sources    *)
(* are printed and run with the real tool (checks C01, C02, C03).            *)
EXTENDS Cli

CONSTANTS Depth,     \* at most so many options
          Letters,   \* which options
          Group      \* "args": one file or none; "frames": files with frames that cannot be analyzed, or that end badly

CA == << <<9, -3, 3, -1, -3, 3, 5>>, <<-11, -7, -3, 1, 5, 7, 3>>, <<1, -1, 1, -1, 1, -1, 1>>, <<-3, 7, 3, 1, -5, 1, -3>>, <<1, 5, -9, -1, -9, -7, 11>> >>
CB == << <<11, -3, 3, -1, 9, -3, -5>>, <<-5, -7, -1, 3, -9, 1, 3>>, <<9, 11, 1, -7, -11, -1, -9>>, <<-11, 5, -9, -5, -1, -5, 11>>, <<9, 3, 9, -3, 1, -9, 9>> >>
MCImages == << [w |-> 7, h |-> 5, c |-> CA, tol |-> 0, bad |-> FALSE],
               [w |-> 7, h |-> 5, c |-> CB, tol |-> 0, bad |-> FALSE],
               [w |-> 7, h |-> 5, c |-> <<>>, tol |-> 0, bad |-> TRUE] >>
(* files: the images of their frames, and what follows them *)
Contents == IF Group = "args" THEN << [f |-> <<2, 1>>, t |-> "eof"] >>
            ELSE LET F == {<<1>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<1, 3>>, <<1, 1, 2>>, <<2, 3, 1>>, <<1, 2, 3>>}
                 IN SetToSeq({[f |-> f, t |-> t] : f \in F, t \in {"eof", "trunc", "junk"}})
PfmHead == <<80, 102, 10, 55, 32, 53, 10, 45, 49, 10>>      \* Pf 7 5 -1
Zeros(n) == [k \in 1 .. n |-> 0]
RECURSIVE FileBody(_, _)
FileBody(n, t) == IF n = 0 THEN (IF t = "junk" THEN <<80, 55>> ELSE <<>>)
                   ELSE IF n = 1 /\ t = "trunc" THEN PfmHead \o Zeros(137)
                   ELSE PfmHead \o Zeros(140) \o FileBody(n - 1, t)
MCFiles == [i \in 1 .. Len(Contents) |->
  [b |-> FileBody(Len(Contents[i].f), Contents[i].t), xr |-> <<>>, xw |-> 0, xh |-> 0, xd |-> 0, xt |-> 0, xn |-> FALSE, xf |-> <<>>, xe |-> "eof", fi |-> Contents[i].f, rep |-> 1]]
Cf == [range |-> 12, pmax |-> 0, readers |-> <<"PGM", "PFM", "Y4M">>, rnames |-> <<Xpgm, Xpfm, Xy4m>>, name |-> "model", kiss |-> FALSE]
ASSUME /\ \A i \in 1 .. 2 : PrintT("IMAGE " \o ToString(i) \o " " \o ToString(MCImages[i].c))
       /\ \A i \in 1 .. Len(Contents) : PrintT("FILE " \o ToString(i) \o " " \o Contents[i].t \o " " \o ToString(Contents[i].f))

(* --- options: their text, and what they mean ------------------------------- *)
B(str) == CASE str = "pfm" -> Xpfm [] str = "PGM" -> <<80, 71, 77>> [] str = "PFM" -> <<80, 70, 77>> [] str = "list" -> <<108, 105, 115, 116>> [] str = "pf" -> <<112, 102>>
Num(o, t, n) == [l |-> "-" \o o \o " " \o t, e |-> [o |-> o, k |-> "n", n |-> n]]
Invalid(o, t) == [l |-> "-" \o o \o " " \o t, e |-> [o |-> o, k |-> "bad"]]
Thr(t, ppb, p, q) == [l |-> "-x " \o t, e |-> [o |-> "x", k |-> "t", ppb |-> ppb, p |-> p, q |-> q]]
Plain(o) == [l |-> "-" \o o, e |-> [o |-> o]]
All == {[l |-> "-v " \o ToString(v), e |-> [o |-> "v", v |-> v]] : v \in -1 .. 3}
  \cup {[l |-> "-m " \o m, e |-> [o |-> "m", s |-> m]] : m \in {"sign", "mag", "orig", "zerox", "Sign"}}
  \cup {[l |-> "-t " \o b, e |-> [o |-> "t", b |-> B(b)]] : b \in {"pfm"}}
  \cup {[l |-> "-R " \o b, e |-> [o |-> "R", b |-> B(b)]] : b \in {"PFM", "PGM", "list", "pf"}}
  \cup {Num("r", ToString(n), n) : n \in {0, 1, 2}} \cup {Invalid("r", "x")}
  \cup {Thr("0", 0, 0, 1), Thr("50", 500000000, 1, 2), Thr("100", 1000000000, 1, 1), Invalid("x", "-1"), Invalid("x", "x")}
  \cup {Num("f", ToString(n), n) : n \in {0, 2, 32}} \cup {Invalid("f", "x"), [l |-> "-f auto", e |-> [o |-> "f", k |-> "auto"]]}
  \cup {Num("o", ToString(n), n) : n \in 0 .. 3} \cup {Invalid("o", "x")}
  \cup {Num("n", ToString(n), n) : n \in 0 .. 3} \cup {Invalid("n", "x")}
  \cup {Plain("p"), Plain("h"), Plain("V"), Plain("z")}
Tokens == {t \in All : t.e.o \in Letters}

VARIABLES args,      \* options given so far
          src, file,
          pc,        \* where the machine is
          i,         \* next option
          p,         \* options read
          pos,       \* frames taken from the input
          ct,        \* frames analyzed
          a,         \* the analysis
          out        \* what was shown
vars == <<args, src, file, pc, i, p, pos, ct, a, out>>

Opts == [k \in 1 .. Len(args) |-> args[k].e]
Event(o) == o @@ [op |-> "cli", opts |-> Opts, src |-> src, file |-> file, nullpath |-> FALSE, pb |-> IF src = "none" THEN <<>> ELSE <<97, 46, 112, 102, 109>>,
             exit |-> 0, err |-> FALSE, form |-> "empty", lw |-> <<>>, lh |-> <<>>, qw |-> <<>>, qh |-> <<>>, best |-> <<>>, given |-> <<>>, notup |-> FALSE, readers |-> <<>>, seen |-> <<>>, past |-> <<>>]
Fail == [exit |-> 1, err |-> TRUE]
Listing == [form |-> "readers", readers |-> Cf.readers]
End(o) == pc' = "end" /\ out' = Event(o) /\ UNCHANGED <<args, src, file, i, pos, ct>>
Goto(l) == pc' = l /\ UNCHANGED <<args, src, file, out>>

(* --- the results as the machine would print them ---------------------------- *)
Ls(d) == LET c == Counted(a, d)
             K(x) == FilterCode(x, c.len, a.r, a.f)
         IN TheList(c.len, c.acc, c.den, a.thr, Exact(a, d), K)
Names(l) == [k \in 1 .. Len(l) |-> l[k][1]]
Front1(l) == SubSeq(l, 1, Len(l) - 1)
Cent(l) == [k \in 1 .. Len(l) |-> <<l[k][1], ((l[k][2] + 50000) \div 100000) * 100000>>]
Micro(l) == [k \in 1 .. Len(l) |-> <<l[k][1], IF l[k][2] < 0 THEN -1000000000 ELSE ((l[k][2] + 500) \div 1000) * 1000>>]
Shown(v) ==
  LET lw == Ls("w")  lh == Ls("h") IN
  CASE v = 0 -> [exit |-> IF Len(lw) = 1 /\ Len(lh) = 1 THEN 1 ELSE 0]
    [] v = 1 -> [form |-> "best", best |-> <<lw[1][1], lh[1][1]>>]
    [] v = 2 -> [form |-> "lists", qw |-> Names(lw), qh |-> Names(lh)]
    [] v = 3 -> [form |-> "conf", lw |-> Micro(lw), lh |-> Micro(lh)]
    [] OTHER -> [form |-> "table", given |-> <<7, 5>>, best |-> <<lw[1][1], lh[1][1]>>, lw |-> Cent(Front1(lw)), lh |-> Cent(Front1(lh)), notup |-> Len(lw) = 1 /\ Len(lh) = 1]

(* --- the machine --------------------------------------------------------------- *)
Init == /\ args = <<>> /\ pc = "args" /\ i = 1 /\ p = Opt0 /\ pos = 0 /\ ct = 0 /\ a = <<>> /\ out = <<>>
        /\ \/ Group = "args" /\ src \in {"none", "missing", "file"} /\ file = (IF src = "file" THEN 1 ELSE 0)
           \/ Group = "frames" /\ src = "file" /\ file \in 1 .. Len(Contents)
More == /\ pc = "args" /\ Len(args) < Depth
        /\ \E t \in Tokens : args' = Append(args, t)
        /\ UNCHANGED <<src, file, pc, i, p, pos, ct, a, out>>
Run == pc = "args" /\ Goto("options") /\ UNCHANGED <<i, p, pos, ct, a>>
Set(f, v) == p' = [p EXCEPT ![f] = v] /\ i' = i + 1 /\ UNCHANGED <<args, src, file, pc, pos, ct, a, out>>
Set2(f, v, g, u) == p' = [p EXCEPT ![f] = v, ![g] = u] /\ i' = i + 1 /\ UNCHANGED <<args, src, file, pc, pos, ct, a, out>>
Stop(o) == End(o) /\ UNCHANGED <<p, a>>
Option ==
  /\ pc = "options" /\ i <= Len(args)
  /\ LET o == args[i].e IN
     CASE o.o = "h" -> Stop([form |-> "help"])
       [] o.o = "V" -> Stop([form |-> "version", readers |-> Cf.readers])
       [] o.o = "z" -> Stop(Fail)
       [] o.o = "R" -> IF LowerSeq(o.b) \in Range(Cf.rnames) THEN Set2("hr", TRUE, "rb", o.b)
                       ELSE IF o.b = B("list") THEN Stop(Listing) ELSE Stop(Fail @@ Listing)
       [] o.o = "o" -> IF o.k = "bad" THEN Stop(Fail) ELSE Set("off", o.n)
       [] o.o = "n" -> IF o.k = "bad" \/ o.n = 0 THEN Stop(Fail) ELSE Set("n", o.n)
       [] o.o = "v" -> Set("v", o.v)
       [] o.o = "m" -> Set("m", o.s)
       [] o.o = "t" -> Set2("ht", TRUE, "tb", o.b)
       [] o.o = "p" -> Set("prog", TRUE)
       [] o.o \in {"x", "r", "f"} -> Set(o.o, o)
Checks ==
  /\ pc = "options" /\ i > Len(args)
  /\ IF \/ src = "none"
        \/ p.m \notin {"", "sign", "mag", "orig", "zerox"}
        \/ p.x.k = "bad" \/ p.r.k = "bad" \/ (p.r.k = "n" /\ p.r.n = 0)
        \/ p.f.k = "bad" \/ (p.f.k = "n" /\ p.f.n > 31)
        \/ p.ht /\ p.hr
        \/ src = "missing"
        \/ p.hr /\ p.rb # B("PFM")         \* the file is a PFM file
     THEN Stop(Fail)
     ELSE Goto("skip") /\ UNCHANGED <<i, p, pos, ct>> /\ a' = NewAnalysis(Cf, MethodOf(p.m), 7, 5, ParamsOf(p, <<97, 46>> \o Xpfm))
Here == Contents[file]
Whole == Len(Here.f) - (IF Here.t = "trunc" THEN 1 ELSE 0)       \* complete frames
Skip ==
  /\ pc = "skip"
  /\ IF pos = p.off THEN Goto("read") /\ UNCHANGED <<i, p, pos, ct, a>>
     ELSE IF pos < Whole THEN pos' = pos + 1 /\ UNCHANGED <<args, src, file, pc, i, p, ct, a, out>>
     ELSE Stop(Fail)                                           \* over the end, or what follows is no frame
Read ==
  /\ pc = "read"
  /\ IF p.n # 0 /\ ct = p.n THEN Goto("show") /\ UNCHANGED <<i, p, pos, ct, a>>
     ELSE IF pos = Whole THEN
       IF Here.t # "eof" \/ ct = 0 THEN Stop(Fail) ELSE Goto("show") /\ UNCHANGED <<i, p, pos, ct, a>>
     ELSE IF Here.f[pos + 1] = 3 THEN Stop(Fail)
     ELSE pos' = pos + 1 /\ ct' = ct + 1 /\ a' = Analyze(a, Images[Here.f[pos + 1]]) /\ UNCHANGED <<args, src, file, pc, i, p, out>>
Announced == IF p.prog THEN [seen |-> <<<<p.off + 1, p.off + ct>>>>, past |-> IF p.off = 0 THEN <<>> ELSE <<<<1, p.off>>>>] ELSE [seen |-> <<>>]
Show == pc = "show" /\ Stop(Shown(p.v) @@ Announced)
Next == More \/ Run \/ Option \/ Checks \/ Skip \/ Read \/ Show
Spec == Init /\ [][Next]_vars

(* --- theorems -------------------------------------------------------------------- *)
WrongLists(l, u) ==
  LET n == Len(l) IN
  {SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, n) : k \in 1 .. n}
  \cup {SubSeq(l, 1, k) \o SubSeq(l, k, n) : k \in 1 .. n}
  \cup {[l EXCEPT ![k][2] = @ + d * u] : k \in {k \in 1 .. n : l[k][2] >= 0}, d \in {-3, 3, 500}}
  \cup {[l EXCEPT ![k][1] = @ + d] : k \in 1 .. n, d \in {-7, 7}}
  \cup {<<<<1, 500000000>>>> \o l, Append(l, <<1, 0>>)}
WrongNames(l) == LET n == Len(l) IN
  {SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, n) : k \in 1 .. n} \cup {SubSeq(l, 1, k) \o SubSeq(l, k, n) : k \in 1 .. n} \cup {Append(l, 1), <<1>> \o l, <<>>}
Blank(e) == [e EXCEPT !.lw = <<>>, !.lh = <<>>, !.qw = <<>>, !.qh = <<>>, !.best = <<>>, !.given = <<>>, !.notup = FALSE, !.readers = <<>>]
Forms == {"empty", "best", "lists", "conf", "table", "readers", "help", "version", "other"}
(* output in another form than asked for *)
Reform(e, f) ==
  LET b == Blank(e) IN
  IF f \in {"readers", "version"} THEN [b EXCEPT !.form = f, !.readers = Cf.readers]
  ELSE IF f \in {"best", "lists", "conf", "table"} /\ pc = "end" /\ a # <<>> /\ a.n > 0 THEN Shown(CASE f = "best" -> 1 [] f = "lists" -> 2 [] f = "conf" -> 3 [] OTHER -> -1) @@ b
  ELSE [b EXCEPT !.form = f]
OpenTie == \E d \in Dims : LET c == Counted(a, d) IN
  \E x \in DOMAIN c.acc : Abs(Ppb(c.acc[x][1], c.den) - a.thr.ppb) <= TieTol /\ ~(a.thr.p >= 0 /\ Exact(a, d))
Results(e) == e.form \in {"best", "lists", "conf", "table"} \/ (e.form = "empty" /\ e.exit = 0) \/ (e.form = "empty" /\ ~e.err)
Wrong(e) ==
  {[e EXCEPT !.exit = x] : x \in {-6, 2, 99} \cup (IF Results(e) /\ p.v = 0 /\ OpenTie THEN {} ELSE {1 - e.exit})}
  \cup {Reform(e, f) : f \in Forms \ {e.form}}
  \cup (IF e.exit = 1 /\ e.err THEN {[e EXCEPT !.err = FALSE]} ELSE {})
  \cup (IF ~Results(e) THEN {}
        ELSE IF p.prog THEN {[e EXCEPT !.seen = <<>>], [e EXCEPT !.seen[1][1] = @ + 1], [e EXCEPT !.seen[1][2] = @ + 1], [e EXCEPT !.past = Append(@, <<1, 1>>)], [e EXCEPT !.seen = @ \o @]}
        ELSE {[e EXCEPT !.seen = <<<<1, 1>>>>], [e EXCEPT !.past = <<<<1, 1>>>>]})
  \cup (IF e.form \in {"readers", "version"} THEN {[e EXCEPT !.readers = Tail(@)], [e EXCEPT !.readers = <<"PFM", "PGM", "Y4M">>]} ELSE {})
  \cup (IF ~Results(e) THEN {} ELSE IF OpenTie \/ p.f.k = "n" THEN {}
        ELSE CASE e.form = "conf" -> {[e EXCEPT !.lw = x] : x \in WrongLists(e.lw, 1000)} \cup {[e EXCEPT !.lh = x] : x \in WrongLists(e.lh, 1000)}
               [] e.form = "lists" -> {[e EXCEPT !.qw = x] : x \in WrongNames(e.qw)} \cup {[e EXCEPT !.qh = x] : x \in WrongNames(e.qh)}
               [] e.form = "table" -> {[e EXCEPT !.lw = x] : x \in WrongLists(e.lw, 100000)} \cup {[e EXCEPT !.lh = x] : x \in WrongLists(e.lh, 100000)}
                                      \cup {[e EXCEPT !.notup = ~@], [e EXCEPT !.given = <<5, 7>>], [e EXCEPT !.best = <<5, 7>>], [e EXCEPT !.best[1] = @ + 1], [e EXCEPT !.best[2] = @ - 1]}
               [] e.form = "best" -> {[e EXCEPT !.best = <<e.best[2] + 7, e.best[1]>>], [e EXCEPT !.best[1] = 1], [e EXCEPT !.best[2] = 8]}
               [] OTHER -> {})
Right == pc = "end" =>
  /\ CliOK(Cf, out)
  /\ \A x \in Wrong(out) : CliOK(Cf, x) => Assert(FALSE, <<"allowed", x>>)
(* the frames analyzed are those after the offset, as many as asked for *)
FramesCounted == pc \in {"read", "show"} =>
  /\ pos = p.off + ct
  /\ a.n = ct
  /\ (p.n = 0 \/ ct <= p.n)
Stops(q) == Options(Cf, q, 1, Opt0).stop
RemoveAt1(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Independent == (pc = "args" /\ Stops(Opts) = "") =>
  LET P == Options(Cf, Opts, 1, Opt0) IN
  /\ \A k \in 1 .. (Len(args) - 1) : args[k].e.o # args[k + 1].e.o =>
        Options(Cf, [Opts EXCEPT ![k] = Opts[k + 1], ![k + 1] = Opts[k]], 1, Opt0) = P
  /\ \A k \in 1 .. Len(args) : (\E j \in (k + 1) .. Len(args) : args[j].e.o = args[k].e.o) => Options(Cf, RemoveAt1(Opts, k), 1, Opt0) = P
  /\ \A k \in 1 .. Len(args) : args[k].e.o = "p" => [Options(Cf, RemoveAt1(Opts, k), 1, Opt0) EXCEPT !.prog = TRUE] = P
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE Head(q).l \o ";" \o Joined(Tail(q))
Emit == (pc = "options" /\ i = 1) => PrintT("ARGS " \o src \o " " \o ToString(file) \o " " \o Joined(args))
=============================================================================
