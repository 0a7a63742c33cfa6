------------------------------ MODULE MCTools -------------------------------
(* Two tools as machines: profile, which takes its dictionary line by line    *)
(* and runs the methods one by one over each image, and visualize.sh, which   *)
(* looks for its tools, takes its options, asks for the sizes, and then runs  *)
(* two programs at once over a pipe.  Whenever they end, ProfileOK and        *)
(* VisualOK allow what was shown, and reject all that differs from it in      *)
(* something promised.  The dictionaries and calls are printed and run with   *)
(* the real tools (checks T01 and V01).                                       *)
EXTENDS Cli

CONSTANTS Group,    \* "profile", "visual"
          Depth     \* how many images in a dictionary, options in a call

PA == << <<-115, -143, -119, -199, -131, 151, 49, 47, -191, -121, 161, 157, -185, -25, 187, -159, -163, 123, 193, -11, -51, -153, 133, 201, 3, 145, -17>>, <<199, 173, -69, -87, 23, 79, -85, -3, -105, 31, -35, -63, -25, -185, 27, 65, 37, -45, 143, 5, 115, -81, -161, 89, 71, -175, 29>> >>
PB == << <<-189, 161, -141, 51, -175, -99, -123, -155, 21, 107, 13, -27, -177, -29, -15, 109, -23, 157, 169, 101, 153, 53, 143, -163, 191, -17, 33>>, <<189, 199, 181, 33, 87, -91, -21, 175, -121, 19, -107, -7, -127, 9, 109, -159, 123, -177, 149, 93, -89, 35, -183, -201, -191, -65, 179>> >>
W == 27
H == 2
MCImages == << [w |-> W, h |-> H, c |-> PA, tol |-> 0, bad |-> FALSE],
               [w |-> W, h |-> H, c |-> PB, tol |-> 0, bad |-> FALSE],
               [w |-> W, h |-> H, c |-> <<>>, tol |-> 0, bad |-> TRUE] >>
Contents == << [f |-> <<1>>, t |-> "eof"], [f |-> <<2, 1>>, t |-> "eof"], [f |-> <<1, 3>>, t |-> "eof"], [f |-> <<1, 2>>, t |-> "trunc"], [f |-> <<2>>, t |-> "junk"], [f |-> <<2>>, t |-> "eof"] >>
PfmHead == <<80, 102, 10, 50, 55, 32, 50, 10, 45, 49, 10>>      \* Pf 27 2 -1
Bytes == 4 * W * H
Zeros(n) == [k \in 1 .. n |-> 0]
RECURSIVE FileBody(_, _)
FileBody(n, t) == IF n = 0 THEN (IF t = "junk" THEN <<80, 55>> ELSE <<>>)
                  ELSE IF n = 1 /\ t = "trunc" THEN PfmHead \o Zeros(Bytes - 3)
                  ELSE PfmHead \o Zeros(Bytes) \o FileBody(n - 1, t)
MCFiles == [i \in 1 .. Len(Contents) |->
  [b |-> FileBody(Len(Contents[i].f), Contents[i].t), xr |-> <<>>, xw |-> 0, xh |-> 0, xd |-> 0, xt |-> 0, xn |-> FALSE, xf |-> <<>>, xe |-> "eof", fi |-> Contents[i].f, rep |-> 1]]
Cf == [range |-> 12, pmax |-> 0, readers |-> <<"PGM", "PFM", "Y4M">>, rnames |-> <<Xpgm, Xpfm, Xy4m>>, name |-> "model", kiss |-> FALSE]
PathB == <<97, 46>> \o Xpfm
ASSUME /\ \A i \in 1 .. 2 : PrintT("IMAGE " \o ToString(i) \o " " \o ToString(MCImages[i].c))
       /\ \A i \in 1 .. Len(Contents) : PrintT("FILE " \o ToString(i) \o " " \o Contents[i].t \o " " \o ToString(Contents[i].f))

VARIABLES g,     \* what is given: a dictionary, or a call
          pc, st, \* where the machine is, and what it knows
          out    \* what was shown
vars == <<g, pc, st, out>>

(* what is found in file f, by the machine's own account *)
Of(f, m, p) == AnalyzeFrames(NewAnalysis(Cf, m, W, H, p), Contents[f].f, 1, Len(Contents[f].f), 1)
Sure(a, d) == MayBeIn(a, d) = MustBeIn(a, d)
FoundBy == [f \in {1, 2, 6} |-> [m \in {MethodNames[k] : k \in 1 .. 4} |->
             LET a == TLCEval(Of(f, m, DefPar)) IN [w |-> MustBeIn(a, "w"), h |-> MustBeIn(a, "h"), sure |-> Sure(a, "w") /\ Sure(a, "h")]]]
ASSUME \A f \in {1, 2, 6} : \A k \in 1 .. 4 : FoundBy[f][MethodNames[k]].sure
ASSUME \E f \in {1, 2, 6} : \E k \in 1 .. 4 : FoundBy[f][MethodNames[k]].w # {}

(* ------------------------------------------------------------------- profile *)
Known == {[kw |-> <<13>>, kh |-> <<2>>], [kw |-> <<14, 12>>, kh |-> <<1>>], [kw |-> <<27>>, kh |-> <<1, 2, 3>>]}
Items == [file : 0 .. 4, k : {"sizes"}, s : Known] \cup [file : {0, 1, 3, 5}, k : {"bad", "cut"}, s : {[kw |-> <<13>>, kh |-> <<2>>]}]
(* its lines *)
LinesFor(it) == IF it.k = "cut" THEN <<<<"path", it.file>>, <<"list", it.s.kw>>>>
              ELSE IF it.k = "bad" THEN <<<<"path", it.file>>, <<"list", it.s.kw>>, <<"list", <<>>>>>>
              ELSE <<<<"path", it.file>>, <<"list", it.s.kw>>, <<"list", it.s.kh>>, <<"empty">>>>
RECURSIVE DictLines(_)
DictLines(q) == IF q = <<>> THEN <<>> ELSE LinesFor(Head(q)) \o DictLines(Tail(q))
Second == 1000000000
Took(k) == 150000000 * k + 1       \* of method k
Plus(t, k) == LET n == t[2] + Took(k) IN IF n >= Second THEN <<t[1] + 1, n - Second>> ELSE <<t[1], n>>
P0 == [ln |-> 1, f |-> 0, kw |-> {}, kh |-> {}, m |-> 1, rep |-> <<>>, more |-> Zeros(4), less |-> Zeros(4), t |-> [k \in 1 .. 4 |-> <<0, 0>>], ret |-> 0, err |-> FALSE]
L == DictLines(g)
Over == st.ln > Len(L)
Stays == UNCHANGED <<g, out>>
Reads(f) == f \in {1, 2, 3, 6}
ProfileNext ==
  \/ /\ pc = "dict" /\ Len(g) < Depth /\ (IF g = <<>> THEN TRUE ELSE g[Len(g)].k # "cut")
     /\ \E it \in Items : g' = Append(g, it)
     /\ UNCHANGED <<pc, st, out>>
  \/ pc = "dict" /\ g # <<>> /\ pc' = "path" /\ st' = P0 /\ Stays
  \/ /\ pc = "path" /\ Stays
     /\ IF st.ret = 1 \/ Over THEN pc' = "totals" /\ UNCHANGED st
        ELSE IF L[st.ln][1] = "empty" THEN st' = [st EXCEPT !.ln = @ + 1] /\ UNCHANGED pc
        ELSE IF L[st.ln][1] = "path" /\ Reads(L[st.ln][2]) THEN st' = [st EXCEPT !.ln = @ + 1, !.f = L[st.ln][2], !.rep = Append(@, <<>>), !.m = 1] /\ pc' = "widths"
        ELSE \* cannot be read: its lists are passed over
             /\ st' = [st EXCEPT !.ln = @ + 3, !.rep = Append(@, <<>>), !.err = TRUE, !.ret = IF st.ln + 2 > Len(L) THEN 1 ELSE 0]
             /\ UNCHANGED pc
  \/ /\ pc \in {"widths", "heights"} /\ Stays
     /\ IF Over \/ L[st.ln] = <<"empty">> THEN st' = [st EXCEPT !.ret = 1] /\ pc' = "path"
        ELSE IF L[st.ln][2] = <<>> THEN st' = [st EXCEPT !.ret = 1] /\ pc' = "path"
        ELSE IF pc = "widths" THEN st' = [st EXCEPT !.ln = @ + 1, !.kw = SetOf(L[st.ln][2])] /\ pc' = "heights"
        ELSE st' = [st EXCEPT !.ln = @ + 1, !.kh = SetOf(L[st.ln][2])] /\ pc' = "method"
  \/ /\ pc = "method" /\ Stays
     /\ IF st.m > 4 THEN pc' = "path" /\ UNCHANGED st
        ELSE IF st.f = 3 THEN st' = [st EXCEPT !.m = @ + 1, !.ret = 1, !.err = TRUE] /\ UNCHANGED pc
        ELSE LET fd == FoundBy[st.f][MethodNames[st.m]]
                 n == Len(st.rep)
                 mo == Cardinality(fd.w \ st.kw) + Cardinality(fd.h \ st.kh)
                 le == Cardinality(st.kw \ fd.w) + Cardinality(st.kh \ fd.h)
             IN /\ st' = [st EXCEPT !.m = @ + 1, !.more[st.m] = @ + mo, !.less[st.m] = @ + le, !.t[st.m] = Plus(@, st.m),
                          !.rep[n] = Append(@, <<MethodNames[st.m], mo, le, 0, Took(st.m)>>)]
                /\ UNCHANGED pc
  \/ /\ pc = "totals" /\ pc' = "end" /\ UNCHANGED <<g, st>>
     /\ out' = [op |-> "profile", exit |-> st.ret, err |-> st.err, form |-> "profile", rep |-> st.rep, clock |-> <<>>,
                totals |-> [k \in 1 .. 4 |-> <<MethodNames[k], st.more[k], st.less[k], st.t[k][1], st.t[k][2]>>],
                items |-> [k \in 1 .. Len(g) |-> [src |-> IF g[k].file = 0 THEN "missing" ELSE "file", file |-> g[k].file, pb |-> PathB, k |-> g[k].k, kw |-> g[k].s.kw, kh |-> g[k].s.kh]]]
WrongProfile(e) ==
  {[e EXCEPT !.exit = x] : x \in {-6, 2, 1 - e.exit}}
  \cup {[e EXCEPT !.form = f] : f \in {"empty", "other"}}
  \cup (IF e.err THEN {[e EXCEPT !.err = FALSE]} ELSE {})
  \cup {[e EXCEPT !.rep = Append(@, <<>>)], [e EXCEPT !.totals = Tail(@)], [e EXCEPT !.totals[1] = e.totals[2], !.totals[2] = e.totals[1]]}
  \cup (IF e.rep # <<>> THEN {[e EXCEPT !.rep = Tail(@)]} ELSE {})
  \cup UNION {{[e EXCEPT !.rep[k] = Tail(@)], [e EXCEPT !.rep[k] = @ \o @]} : k \in {k \in 1 .. Len(e.rep) : e.rep[k] # <<>>}}
  \cup UNION {{[e EXCEPT !.rep[k][m][x] = @ + d] : x \in {2, 3}, m \in 1 .. 4, d \in {-1, 1}} : k \in {k \in 1 .. Len(e.rep) : e.rep[k] # <<>>}}
  \* ... with totals to match
  \cup UNION {{[e EXCEPT !.rep[k][m][x] = @ + 1, !.totals[m][x] = @ + 1] : x \in {2, 3}, m \in 1 .. 4} : k \in {k \in 1 .. Len(e.rep) : e.rep[k] # <<>>}}
  \cup {[e EXCEPT !.totals[m][x] = @ + d] : x \in 2 .. 5, m \in 1 .. 4, d \in {-1, 1}}
RightProfile == (Group = "profile" /\ pc = "end") =>
  /\ ProfileOK(Cf, out)
  /\ \A x \in WrongProfile(out) : ProfileOK(Cf, x) => Assert(FALSE, <<"allowed", x>>)

(* -------------------------------------------------------------- visualize.sh *)
Opt(l, e) == [l |-> l, e |-> e]
Own == {Opt("-l 0", [o |-> "l", n |-> 0]), Opt("-l 30", [o |-> "l", n |-> 30]), Opt("-l 7", [o |-> "l", n |-> 7]),
        Opt("-c red", [o |-> "c", b |-> <<114, 101, 100>>]), Opt("-t 2", [o |-> "t", b |-> <<50>>]), Opt("-h", [o |-> "h"]), Opt("-z", [o |-> "bad"])}
FR == {[l |-> "", e |-> <<>>], [l |-> "-m mag", e |-> <<[o |-> "m", s |-> "mag"]>>], [l |-> "-v 3", e |-> <<[o |-> "v", v |-> 3]>>],
       [l |-> "-m Sign", e |-> <<[o |-> "m", s |-> "Sign"]>>], [l |-> "-x 100", e |-> <<[o |-> "x", k |-> "t", ppb |-> Second, p |-> 1, q |-> 1]>>],
       [l |-> "-r 13", e |-> <<[o |-> "r", k |-> "n", n |-> 13]>>]}
Words == {<<>>, <<"-b">>, <<"--fail">>}
Missing == {"", "resdet", "spec", "magick", "identify"}
(* the tools, the sizes, and two programs at once *)
V0 == [i |-> 1, len |-> 50, color |-> <<103, 114, 101, 101, 110>>, thick |-> <<49>>, dw |-> 0, dh |-> 0, sp |-> "runs", mg |-> "waits", pipe |-> FALSE, closed |-> FALSE]
Calls == {c \in [missing : Missing, ropts : FR, words : Words, args : 0 .. 2, file : {0, 1, 2, 3, 4}, known : BOOLEAN, dir : BOOLEAN] :
           \* one thing goes wrong before the programs run
           Cardinality({x \in 1 .. 5 : CASE x = 1 -> c.missing # "" [] x = 2 -> c.args < 2 [] x = 3 -> c.file \in {0, 3, 4} [] x = 4 -> ~c.known [] OTHER -> c.ropts.l \in {"-m Sign"}}) <= 1}
VEvent(o) == o @@ [op |-> "visual", opts |-> [k \in 1 .. Len(g.opts) |-> g.opts[k].e], ropts |-> g.c.ropts.e, words |-> g.c.words, args |-> g.c.args, missing |-> g.c.missing,
             src |-> IF g.c.file = 0 THEN "missing" ELSE "file", file |-> g.c.file, pb |-> PathB, w |-> IF g.c.known /\ g.c.file # 0 THEN W ELSE 0, hh |-> H,
             works |-> g.c.words # <<"--fail">> /\ g.c.dir, nullpath |-> FALSE,
             exit |-> 0, err |-> FALSE, drawn |-> FALSE, help |-> FALSE, base |-> [words |-> <<>>, image |-> <<>>], lines |-> <<>>, strokes |-> <<>>]
VEnd(o) == pc' = "end" /\ out' = VEvent(o) /\ UNCHANGED <<g, st>>
VFail == VEnd([exit |-> 1, err |-> TRUE])
VGo(l) == pc' = l /\ Stays
RMethod == IF g.c.ropts.l = "-m mag" THEN "mag" ELSE "sign"
RParams == [r |-> IF g.c.ropts.l = "-r 13" THEN 13 ELSE 0, thr |-> IF g.c.ropts.l = "-x 100" THEN [ppb |-> Second, p |-> 1, q |-> 1] ELSE NoThr, f |-> 0]
TheBest(a, d) == LET c == Counted(a, d)  l == TheList(c.len, c.acc, c.den, a.thr, Exact(a, d), LAMBDA x : TRUE) IN l[1][1]
VisualNext ==
  \/ pc = "opts" /\ Len(g.opts) < Depth /\ (\E o \in Own : g' = [g EXCEPT !.opts = Append(@, o)]) /\ UNCHANGED <<pc, st, out>>
  \/ pc = "opts" /\ (\E c \in Calls : g' = [g EXCEPT !.c = c]) /\ pc' = "tools" /\ st' = V0 /\ UNCHANGED out
  \/ pc = "tools" /\ IF g.c.missing \in {"resdet", "spec", "magick"} THEN VFail ELSE VGo("option") /\ UNCHANGED st
  \/ /\ pc = "option"
     /\ IF st.i > Len(g.opts) THEN
          IF g.c.args < 2 THEN VEnd([exit |-> 2, err |-> TRUE]) ELSE VGo("identify") /\ UNCHANGED st
        ELSE LET o == g.opts[st.i].e IN
          IF o.o = "h" /\ g.c.missing = "" THEN VEnd([help |-> TRUE])
          ELSE IF o.o = "bad" /\ g.c.missing = "" THEN VEnd([exit |-> 2, err |-> TRUE])
          ELSE IF o.o \in {"h", "bad"} THEN VFail      \* (open: not of interest here)
          ELSE /\ UNCHANGED <<g, pc, out>>
               /\ st' = CASE o.o = "l" -> [st EXCEPT !.i = @ + 1, !.len = o.n]
                          [] o.o = "c" -> [st EXCEPT !.i = @ + 1, !.color = o.b]
                          [] o.o = "t" -> [st EXCEPT !.i = @ + 1, !.thick = o.b]
  \/ pc = "identify" /\ IF g.c.missing = "identify" \/ ~g.c.known \/ g.c.file = 0 THEN VFail ELSE VGo("resdet") /\ UNCHANGED st
  \/ /\ pc = "resdet"
     /\ IF g.c.file \in {3, 4} \/ g.c.ropts.l = "-m Sign" THEN VFail
        ELSE LET a == TLCEval(Of(g.c.file, RMethod, RParams)) IN
          st' = [st EXCEPT !.dw = TheBest(a, "w"), !.dh = TheBest(a, "h")] /\ VGo("pipe")
  \/ /\ pc = "pipe" /\ st.sp = "runs" /\ UNCHANGED <<g, pc, out>>      \* spec writes into the pipe, or fails
     /\ st' = [st EXCEPT !.sp = "ends", !.pipe = g.c.words # <<"--fail">>, !.closed = TRUE]
  \/ /\ pc = "pipe" /\ st.mg = "waits" /\ (st.pipe \/ st.closed) /\ UNCHANGED <<g, pc, out>>      \* magick sees data, or the end of it
     /\ st' = [st EXCEPT !.mg = IF st.pipe /\ g.c.dir THEN "draws" ELSE "fails"]
  \/ /\ pc = "pipe" /\ st.mg \in {"draws", "fails"} /\ st.sp = "ends"
     /\ IF st.mg = "fails" THEN VFail
        ELSE VEnd([drawn |-> TRUE, base |-> [words |-> g.c.words, image |-> PathB],
                   lines |-> <<<<W - st.len, st.dh, W, st.dh>>, <<st.dw, H - st.len, st.dw, H>>>>, strokes |-> <<<<st.color, st.thick>>, <<st.color, st.thick>>>>])
WrongVisual(e) ==
  {[e EXCEPT !.exit = x] : x \in {-6} \cup (IF e.exit = 0 THEN {1, 2} ELSE {0}) \cup (IF e.exit = 2 THEN {1} ELSE {})}
  \cup (IF e.err THEN {[e EXCEPT !.err = FALSE]} ELSE {})
  \cup (IF e.help THEN {[e EXCEPT !.help = FALSE]} ELSE {})
  \cup {[e EXCEPT !.drawn = ~@]}
  \cup (IF ~e.drawn THEN {} ELSE
         {[e EXCEPT !.lines = Tail(@)], [e EXCEPT !.lines = Append(@, e.lines[1])], [e EXCEPT !.base.words = Append(@, "x")], [e EXCEPT !.base.image = <<0>>],
          [e EXCEPT !.strokes[1][1] = <<0>>], [e EXCEPT !.strokes[2][2] = <<0>>],
          [e EXCEPT !.lines[1][2] = @ - 1, !.lines[1][4] = @ - 1], [e EXCEPT !.lines[2][1] = @ - 1, !.lines[2][3] = @ - 1],
          [e EXCEPT !.lines[2][1] = @ + 1, !.lines[2][3] = @ + 1]}
         \cup {[e EXCEPT !.lines[k][x] = @ + 1] : k \in {1, 2}, x \in 1 .. 4})
RightVisual == (Group = "visual" /\ pc = "end") =>
  /\ VisualOK(Cf, out)
  /\ (g.c.missing = "" \/ \A k \in 1 .. Len(g.opts) : g.opts[k].e.o \notin {"h", "bad"}) =>
      \A x \in WrongVisual(out) : VisualOK(Cf, x) => Assert(FALSE, <<"allowed", x>>)

(* ---------------------------------------------------------------------------- *)
Init == /\ out = <<>>
        /\ IF Group = "profile" THEN g = <<>> /\ pc = "dict" /\ st = P0
           ELSE g = [opts |-> <<>>, c |-> <<>>] /\ pc = "opts" /\ st = V0
Next == IF Group = "profile" THEN ProfileNext ELSE VisualNext
Spec == Init /\ [][Next]_vars

RECURSIVE Spaced(_)
Spaced(q) == IF q = <<>> THEN "" ELSE " " \o ToString(Head(q)) \o Spaced(Tail(q))
RECURSIVE DictText(_)
DictText(q) == IF q = <<>> THEN "" ELSE ToString(Head(q).file) \o " " \o Head(q).k \o Spaced(Head(q).s.kw) \o " /" \o Spaced(Head(q).s.kh) \o ";" \o DictText(Tail(q))
RECURSIVE OptText(_)
OptText(q) == IF q = <<>> THEN "" ELSE Head(q).l \o ";" \o OptText(Tail(q))
Emit == /\ pc = "dict" => PrintT("DICT " \o DictText(g))
        /\ pc = "tools" => PrintT("CALL " \o OptText(g.opts) \o "|" \o g.c.missing \o "|" \o g.c.ropts.l \o "|" \o Spaced(g.c.words) \o "|" \o ToString(g.c.args) \o "|"
                                  \o ToString(g.c.file) \o "|" \o ToString(g.c.known) \o "|" \o ToString(g.c.dir))
=============================================================================
