-------------------------------- MODULE Api ---------------------------------
(* The public interface of libresdet as a relation: Step(c, s, e) is the set *)
(* of states the library may be in after a call was made in state s and      *)
(* replied as event e records.  It is empty if the library may not reply so. *)
(*                                                                           *)
(* c   configuration of the library: [range, pmax, readers, py]              *)
(* s   [par, an, im]: functions from handles to parameter sets, analyses and *)
(*     open images.  Handles share nothing: that they behave as if each were *)
(*     the only one is built into the shape of the state.                    *)
EXTENDS Detect, Formats, ReaderCore

CONSTANTS Images,   \* sequence of [w, h, c, tol, bad]
          Files     \* sequence of [b, xr, xw, xh, xd, xt, xn, xf, xe, fi, rep]

Init0 == [par |-> <<>>, an |-> <<>>, im |-> <<>>]
Drop(f, h) == [k \in DOMAIN f \ {h} |-> f[k]]
Put(f, h, v) == (h :> v) @@ f
Yes(cond, s) == IF cond THEN {s} ELSE {}

(* ------------------------------------------------------------- parameters *)
NoThr == [ppb |-> -1, p |-> -1, q |-> 1]
DefPar == [r |-> 0, thr |-> NoThr, f |-> 0]        \* r = 0: not set

ThrValid(hi, lo) == ~F32IsNaN(hi, lo) /\ ~F32IsNeg(hi, lo) /\ ~F32AboveOne(hi, lo)

StepParam(c, s, e) ==
  CASE e.op = "palloc" ->
         IF e.ok THEN {[s EXCEPT !.par = Put(@, e.h, DefPar)]} ELSE Yes(e.nf > 0, s)
    [] e.op = "pfree" -> {[s EXCEPT !.par = Drop(@, e.h)]}
    [] e.op = "prange" ->
         IF e.h = -1 \/ e.n = 0 THEN Yes(e.ret = PARAM, s)
         ELSE Yes(e.ret = OK, [s EXCEPT !.par[e.h].r = e.n])
    [] e.op = "pthr" ->
         IF e.h = -1 \/ ~ThrValid(e.hi, e.lo) THEN Yes(e.ret = PARAM, s)
         ELSE Yes(e.ret = OK, [s EXCEPT !.par[e.h].thr = [ppb |-> e.ppb, p |-> e.p, q |-> e.q]])
    [] e.op = "pfilt" ->
         IF e.h = -1 \/ e.v > 31 THEN Yes(e.ret = PARAM, s)
         ELSE Yes(e.ret = OK, [s EXCEPT !.par[e.h].f = e.v])

(* The parameters an analysis is created with *)
ParOf(s, p) == IF p = -1 THEN DefPar ELSE s.par[p]
MethodOf(m) == IF m = "" THEN "sign" ELSE m
RangeOf(c, p, m) == EffRange(m, IF p.r = 0 THEN c.range ELSE p.r)
ThrOf(p, m) == IF p.thr = NoThr THEN DefThr(m) ELSE p.thr

(* --------------------------------------------------------------- analyses *)
(* Dimensions >= 2^30 are recorded as -k, standing for 2^k or a little more. *)
Log(x) == IF x < 0 THEN -x ELSE 0
Huge(w, h) == w < 0 \/ h < 0
Representable(w, h) == Log(w) + Log(h) < 62      \* w*h*4 fits a size_t
DimErrors(c, w, h) ==   \* errors that apply to the dimensions
  (IF w = 0 \/ h = 0 THEN {INVAL} ELSE {}) \cup
  (IF w = 0 \/ h = 0 THEN (IF Huge(w, h) THEN {TOOBIG} ELSE {})
   ELSE IF Huge(w, h) THEN (IF c.pmax > 0 \/ ~Representable(w, h) THEN {TOOBIG} ELSE {TOOBIG, NOMEM})
   ELSE IF c.pmax > 0 /\ Exceeds(w, h, c.pmax) THEN {TOOBIG} ELSE {})
(* errors allowed on account of injected faults *)
FaultErrors(e) == IF e.nf = 0 THEN {} ELSE IF e.nx > 0 THEN (-4000 .. -1) \cup (1 .. 7) ELSE {NOMEM}

NewAnalysis(c, m, w, h, p) ==
  LET r == RangeOf(c, p, m)
  IN [m |-> m, w |-> w, h |-> h, r |-> r, thr |-> ThrOf(p, m), f |-> p.f, n |-> 0,
      aw |-> Zero(w, r), ah |-> Zero(h, r), junk |-> FALSE]
(* Known finding: kissfft does not report that it could not allocate scratch *)
(* space for a factor over 5; the transform is then wrong, without an error. *)
RECURSIVE Over5(_)
Over5(n) == IF n % 2 = 0 THEN Over5(n \div 2) ELSE IF n % 3 = 0 THEN Over5(n \div 3) ELSE IF n % 5 = 0 THEN Over5(n \div 5) ELSE n > 1
ScratchLost(c, e, w, h) == c.kiss /\ e.nf > 0 /\ (Over5(w) \/ Over5(h))
Analyze(a, im) ==
  [a EXCEPT !.n = @ + 1, !.aw = AddCounts(@, Counts(im, a.m, "w", a.r)), !.ah = AddCounts(@, Counts(im, a.m, "h", a.r))]
RECURSIVE AnalyzeAll(_, _, _)
AnalyzeAll(a, imgs, k) == IF k > Len(imgs) THEN a ELSE AnalyzeAll(Analyze(a, Images[imgs[k]]), imgs, k + 1)
(* the same image k times *)
Times(c, k) == [x \in DOMAIN c |-> <<c[x][1] * k, c[x][2] * k>>]
AnalyzeN(a, im, k) ==
  IF k = 0 THEN a
  ELSE [a EXCEPT !.n = @ + k, !.aw = AddCounts(@, Times(Counts(im, a.m, "w", a.r), k)), !.ah = AddCounts(@, Times(Counts(im, a.m, "h", a.r), k))]
(* frames first .. last of the sequence imgs, imgs, imgs, ... *)
Occurrences(i, L, m) == IF m < i THEN 0 ELSE (m - i) \div L + 1      \* of imgs[i] among the first m
RECURSIVE AnalyzeFrames(_, _, _, _, _)
AnalyzeFrames(a, imgs, first, last, i) ==
  IF i > Len(imgs) THEN a
  ELSE AnalyzeFrames(AnalyzeN(a, Images[imgs[i]], Occurrences(i, Len(imgs), last) - Occurrences(i, Len(imgs), first - 1)), imgs, first, last, i + 1)

DimResultRight(a, d, l) ==
  LET len == IF d = "w" THEN a.w ELSE a.h
      acc == IF d = "w" THEN a.aw ELSE a.ah
      den == Den(a.w, a.h, a.m, d, a.r) * a.n
      exact == a.n = 1 \/ IsPow2(den \div a.n)
  IN IF a.f = 0 THEN LET K(x) == TRUE IN ListOK(l, len, acc, den, a.thr, exact, K)
     ELSE LET KDoc(x) == FilterDoc(x, len, a.r, a.f)
              KCode(x) == FilterCode(x, len, a.r, a.f)
          IN \/ ListOK(l, len, acc, den, a.thr, exact, KDoc)
             \/ /\ ListOK(l, len, acc, den, a.thr, exact, KCode)
                /\ PrintT(<<"DEVIATION", "compression-filter-offsets", len, a.r, a.f>>)

DimResultOK(a, d, l) ==
  \/ DimResultRight(a, d, l)
  \/ a.junk /\ PrintT(<<"DEVIATION", "kissfft-scratch-failure", a.w, a.h>>)

Bit(mask, b) == (mask \div b) % 2 = 1
MaskBad(mask) == (Bit(mask, 1) /\ ~Bit(mask, 2)) \/ (Bit(mask, 4) /\ ~Bit(mask, 8))
OutNull(e) ==
  /\ Bit(e.mask, 1) => e.rwn
  /\ Bit(e.mask, 2) => e.cwv = 0
  /\ Bit(e.mask, 4) => e.rhn
  /\ Bit(e.mask, 8) => e.chv = 0
OutLists(e, a) ==
  /\ Bit(e.mask, 1) => ~e.rwn /\ "lw" \in DOMAIN e /\ e.cwv = Len(e.lw) /\ DimResultOK(a, "w", e.lw)
  /\ Bit(e.mask, 4) => ~e.rhn /\ "lh" \in DOMAIN e /\ e.chv = Len(e.lh) /\ DimResultOK(a, "h", e.lh)
Outcome(e, errors, a) ==   \* the reply of a call returning results
  IF e.ret # OK THEN e.ret \in errors \cup FaultErrors(e) /\ OutNull(e)
  ELSE errors = {} /\ OutLists(e, a)

StepAnalysis(c, s, e) ==
  CASE e.op = "create" ->
         LET errs == DimErrors(c, e.w, e.hh)
             good == [s EXCEPT !.an = Put(@, e.h, NewAnalysis(c, MethodOf(e.m), e.w, e.hh, ParOf(s, e.p)))]
         IN IF e.ok THEN Yes(errs = {} /\ e.ret = OK, good)
            ELSE IF e.we THEN Yes(e.ret \in errs \cup FaultErrors(e), s)
            ELSE Yes(errs \cup FaultErrors(e) # {}, s)
    [] e.op = "analyze" ->
         LET errs == IF e.h = -1 \/ e.img = 0 THEN {PARAM} ELSE IF Images[e.img].bad THEN {INVAL} ELSE {}
         IN IF e.ret # OK THEN Yes(e.same /\ e.ret \in errs \cup FaultErrors(e), s)
            ELSE IF errs # {} \/ ~e.same THEN {}
            ELSE {[s EXCEPT !.an[e.h] = [Analyze(@, Images[e.img]) EXCEPT !.junk = @ \/ ScratchLost(c, e, s.an[e.h].w, s.an[e.h].h)]]}
    [] e.op = "analyzen" ->       \* k analyses of one image, up to the first error
         LET errs == IF e.h = -1 \/ e.img = 0 THEN {PARAM} ELSE IF Images[e.img].bad THEN {INVAL} ELSE {}
         IN IF e.ret # OK THEN Yes(e.same /\ e.ret \in errs, s)
            ELSE IF errs # {} \/ ~e.same THEN {}
            ELSE {[s EXCEPT !.an[e.h] = AnalyzeN(@, Images[e.img], e.k)]}
    [] e.op = "results" ->
         LET errs == (IF MaskBad(e.mask) \/ e.h = -1 THEN {PARAM} ELSE {}) \cup
                     (IF e.h # -1 /\ s.an[e.h].n = 0 THEN {NOIMG} ELSE {})
         IN Yes(Outcome(e, errs, IF e.h = -1 THEN 0 ELSE s.an[e.h]), s)
    [] e.op = "destroy" -> IF e.h = -1 THEN {s} ELSE {[s EXCEPT !.an = Drop(@, e.h)]}
    [] e.op = "detect" ->
         LET dims == DimErrors(c, e.w, e.hh)
             errs == (IF MaskBad(e.mask) THEN {PARAM} ELSE {}) \cup
                     (IF e.nullimg THEN {PARAM} ELSE {}) \cup
                     (IF e.n = 0 THEN {NOIMG} ELSE {}) \cup dims \cup
                     (IF \E k \in 1 .. Len(e.imgs) : Images[e.imgs[k]].bad THEN {INVAL} ELSE {})
             m == MethodOf(e.m)
         IN Yes(("same" \in DOMAIN e => e.same) /\ Outcome(e, errs, IF errs # {} THEN 0
                  ELSE [(IF "rep" \in DOMAIN e THEN AnalyzeFrames(NewAnalysis(c, m, e.w, e.hh, ParOf(s, e.p)), e.imgs, 1, e.n, 1)
                         ELSE AnalyzeAll(NewAnalysis(c, m, e.w, e.hh, ParOf(s, e.p)), e.imgs, 1)) EXCEPT !.junk = ScratchLost(c, e, e.w, e.hh)]), s)

(* ----------------------------------------------------------------- images *)
(* Choice of the reader.  Type and name are sequences of character codes.    *)
Lower(x) == IF x \in 65 .. 90 THEN x + 32 ELSE x
LowerSeq(q) == [k \in 1 .. Len(q) |-> Lower(q[k])]
LastOf(q, ch) == IF \E k \in 1 .. Len(q) : q[k] = ch THEN CHOOSE k \in 1 .. Len(q) : q[k] = ch /\ \A j \in (k + 1) .. Len(q) : q[j] # ch ELSE 0
ExtOfName(q) == IF LastOf(q, 46) = 0 THEN <<>> ELSE Sub(q, LastOf(q, 46) + 1, Len(q) + 1)
Xpgm == <<112, 103, 109>>   Xpfm == <<112, 102, 109>>   Xy4m == <<121, 52, 109>>
Xpng == <<112, 110, 103>>   Xjpg == <<106, 112, 103>>   Xjpeg == <<106, 112, 101, 103>>
Mime == [x \in {"a"} |-> x]
ImageSlash == <<105, 109, 97, 103, 101, 47>>
ExtOfMime(q) ==
  CASE q = ImageSlash \o Xjpeg -> Xjpg
    [] q = ImageSlash \o Xpng  -> Xpng
    [] q = <<118, 105, 100, 101, 111, 47, 121, 117, 118, 52, 109, 112, 101, 103>> -> Xy4m       \* video/yuv4mpeg
    [] q = ImageSlash \o <<120, 45, 112, 111, 114, 116, 97, 98, 108, 101, 45, 103, 114, 97, 121, 109, 97, 112>> -> Xpgm  \* x-portable-graymap
    [] q = ImageSlash \o <<120, 45, 112, 111, 114, 116, 97, 98, 108, 101, 45, 102, 108, 111, 97, 116, 109, 97, 112>> -> Xpfm  \* x-portable-floatmap
    [] OTHER -> <<>>
(* "": no type given; otherwise a nonempty or empty sequence *)
ExtOf(e) == IF e.hast THEN (IF LastOf(e.tb, 47) # 0 THEN ExtOfMime(e.tb) ELSE e.tb) ELSE ExtOfName(e.pb)
Supports(rd, ext) ==
  LET x == LowerSeq(ext) IN
  CASE rd = "PGM" -> x = Xpgm [] rd = "PFM" -> x = Xpfm [] rd = "Y4M" -> x = Xy4m
    [] rd = "libjpeg" -> x \in {Xjpg, Xjpeg} [] rd = "libpng" -> x = Xpng [] OTHER -> FALSE
General == {"FFmpeg", "MagickWand"}
(* names of containers of video, which are FFmpeg's where there is FFmpeg      *)
VideoExt == {<<97, 118, 105>>, <<109, 107, 118>>, <<109, 112, 52>>, <<109, 111, 118>>}      \* avi mkv mp4 mov
(* the set of readers that may be chosen; {"none"} if there is none *)
Choice(c, e) ==
  IF e.op = "openr" THEN
    LET k == {i \in 1 .. Len(c.readers) : LowerSeq(c.rnames[i]) = LowerSeq(e.tb)}
    IN IF k = {} THEN {"none"} ELSE {c.readers[i] : i \in k}
  ELSE LET x == ExtOf(e)
           k == {i \in 1 .. Len(c.readers) : Supports(c.readers[i], x)}
           g == {c.readers[i] : i \in 1 .. Len(c.readers)} \cap General
       IN IF k # {} THEN {c.readers[CHOOSE i \in k : \A j \in k : i <= j]}
          ELSE IF g = {} THEN {"none"}
          ELSE IF "MagickWand" \notin g \/ ("FFmpeg" \in g /\ LowerSeq(x) \in VideoExt) THEN {"FFmpeg"}
          ELSE g      \* which of them handles what is theirs to say

Native == {"PGM", "PFM", "Y4M"}
PngSig == <<137, 80, 78, 71, 13, 10, 26, 10>>
(* (a file that this reader is to refuse has a tail of "err") *)
XStream(f) == IF f.xe \in {"err", "unsupp"} THEN NoStream("err", f.xe) ELSE
              [st |-> "ok", fmt |-> "X", w |-> f.xw, h |-> f.xh, mx |-> f.xd, bw |-> 1,
               fr |-> [k \in 1 .. Len(f.xf) |-> [off |-> k, kind |-> 0, le |-> TRUE]], tail |-> f.xe]
(* A file with rep > 1 consists of the header (if there is one) and the       *)
(* frames of f.b, the frames repeated rep times.                              *)
StreamOf1(rd, fi) ==
  IF fi = 0 THEN NoStream("err", "none")
  ELSE LET f == Files[fi] IN
    IF \E k \in 1 .. Len(f.xr) : f.xr[k] = rd THEN XStream(f)
    ELSE IF rd \in Native THEN Stream(f.b, rd)
    ELSE IF rd = "libpng" /\ ~HasPrefix(f.b, 1, PngSig) THEN NoStream("err", rd)
    ELSE IF rd = "libjpeg" /\ ~HasPrefix(f.b, 1, <<255, 216>>) THEN NoStream("err", rd)
    ELSE NoStream("any", rd)
StreamOf(rd, fi) == [rep |-> IF fi = 0 THEN 1 ELSE Files[fi].rep] @@ StreamOf1(rd, fi)
Frames(st) == Len(st.fr) * st.rep          \* how many there are
At1(st, k) == ((k - 1) % Len(st.fr)) + 1     \* and which of st.fr the k-th of them is
StillReader(rd) == rd \in {"PGM", "libpng", "libjpeg"}

ReaderOf(rd, fi, st) == [rc |-> IF st.st # "ok" THEN AnyReader ELSE MkReader(Frames(st), st.tail, StillReader(rd)), st |-> st, file |-> fi, rd |-> rd]

Errors == (-4000 .. -1) \cup (1 .. 7)
(* what the system says of a file that does not exist (0 if it does)          *)
Sys(e) == IF "sys" \in DOMAIN e THEN e.sys ELSE 0
ENFILE == 23  ENOENT == 2
(* errors of opening st: {} if it must succeed *)
OpenErrors(c, e, rd, st) ==
  CASE Sys(e) # 0 -> {-Sys(e)} \cup (IF rd = "MagickWand" THEN {-ENOENT} ELSE {})   \* (it goes on to look for other files)
    [] st.st = "err" /\ st.fmt = "unsupp" -> {UNSUPP}
    [] st.st = "err" /\ st.fmt \notin {"err", "none"} /\ rd \in (Native \cup {"libpng", "libjpeg"}) -> {INVAL, TOOBIG}
    [] st.st = "err" -> Errors
    [] st.st = "ok" -> IF c.pmax > 0 /\ Exceeds(st.w, st.h, c.pmax) THEN {TOOBIG} ELSE {}
    [] OTHER -> Errors
OpenMaySucceed(c, st) ==
  CASE st.st = "err" -> FALSE
    [] st.st = "ok" -> ~(c.pmax > 0 /\ Exceeds(st.w, st.h, c.pmax))
    [] OTHER -> TRUE
OpenFaults(e, rd) == IF e.nf = 0 THEN {} ELSE IF rd \notin Native THEN Errors ELSE {NOMEM} \cup (IF e.nx > 0 THEN {-ENFILE} ELSE {})

OpenNull(e) ==
  /\ Bit(e.fl, 1) => e.buf = "null"
  /\ Bit(e.fl, 4) => e.w = 0
  /\ Bit(e.fl, 8) => e.hh = 0
StepOpen(c, s, e) ==
  LET perr == ~Bit(e.fl, 4) \/ ~Bit(e.fl, 8) \/ e.nullpath \/ (e.op = "openr" /\ ~e.hast)
      Fails(errs) == ~e.ok /\ (Bit(e.fl, 2) => e.ret \in errs) /\ OpenNull(e)
  IN IF perr THEN Yes(Fails({PARAM}), s)
     ELSE UNION {
       IF rd = "none" THEN Yes(Fails({UNSUPP} \cup FaultErrors(e)), s)
       ELSE LET st == StreamOf(rd, e.file) IN
         IF e.ok THEN
           Yes(/\ OpenMaySucceed(c, st)
               /\ Bit(e.fl, 2) => e.ret = OK
               /\ st.st = "ok" => e.w = st.w /\ e.hh = st.h
               /\ c.pmax > 0 => ~Exceeds(e.w, e.hh, c.pmax)
               /\ Bit(e.fl, 1) => e.buf = "ok",
               [s EXCEPT !.im = Put(@, e.h, ReaderOf(rd, e.file, st))])
         ELSE LET errs == OpenErrors(c, e, rd, st) \cup OpenFaults(e, rd)
              IN Yes(errs # {} /\ Fails(errs), s)
       : rd \in Choice(c, e)}

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
PixelsOK(x, k, px, base) ==   \* do px[base..] show frame k of image handle x?
  IF x.st.fmt = "X" THEN
    LET f == Files[x.file] IN
    \A p \in 0 .. (f.xw * f.xh - 1) :
      IF f.xn THEN LET v == F32Scaled(px[2 * (base + p) + 1], px[2 * (base + p) + 2])
                   IN v # NotInt /\ Abs(v - (f.xf[At1(x.st, k)][p + 1] * 65536) \div f.xd) * f.xd <= f.xt * 65536 + f.xd
      ELSE \E d \in -f.xt .. f.xt : IsFrac(px[2 * (base + p) + 1], px[2 * (base + p) + 2], Clamp(f.xf[At1(x.st, k)][p + 1] + d, 0, f.xd), f.xd)
  ELSE FrameOK(Files[x.file].b, x.st, At1(x.st, k), px, base)

StepImage(c, s, e) ==
  CASE e.op \in {"open", "openr"} -> StepOpen(c, s, e)
    [] e.op = "close" -> IF e.h = -1 THEN {s} ELSE {[s EXCEPT !.im = Drop(@, e.h)]}
    [] e.op = "read" ->
         IF e.h = -1 \/ e.nobuf THEN Yes(~e.ret /\ (e.we => e.err = PARAM), s)
         ELSE LET x == s.im[e.h]
                  fault == IF e.nf > 0 /\ ~e.ret /\ (e.we => e.err = NOMEM \/ (x.rd \notin Native /\ e.err # OK))
                           THEN {[s EXCEPT !.im[e.h].rc = AnyReader]} ELSE {}
              IN (IF ~e.guard THEN {}
                  ELSE IF Anything(x.rc) THEN {[s EXCEPT !.im[e.h].rc = AnyReader]}
                  ELSE {[s EXCEPT !.im[e.h].rc = y[3]] : y \in {y \in ReadReplies(x.rc) :
                         /\ e.ret = y[1]
                         /\ e.we => e.err = y[2]
                         /\ e.ret => PixelsOK(x, y[4], e.px, 0)}}) \cup fault
    [] e.op = "readn" ->          \* k reads, of which the last one's pixels were recorded
         LET x == s.im[e.h] IN
         IF Anything(x.rc) \/ e.k > x.rc.n - x.rc.pos THEN {[s EXCEPT !.im[e.h].rc = AnyReader]}
         ELSE Yes(e.ret /\ e.err = OK /\ PixelsOK(x, x.rc.pos + e.k, e.px, 0), [s EXCEPT !.im[e.h].rc.pos = @ + e.k])
    [] e.op = "seek" ->
         IF e.h = -1 THEN Yes(~e.ret /\ (e.we => e.err = PARAM) /\ e.prog = <<>>, s)
         ELSE LET x == s.im[e.h]
                  fault == IF e.nf > 0 /\ ~e.ret /\ (e.we => e.err = NOMEM \/ (x.rd \notin Native /\ e.err # OK))
                           THEN {[s EXCEPT !.im[e.h].rc = AnyReader]} ELSE {}
              IN (IF Anything(x.rc) /\ e.n > 0 THEN {[s EXCEPT !.im[e.h].rc = AnyReader]}
                  ELSE IF x.rc.tail = "any" /\ e.n > x.rc.n - x.rc.pos THEN {[s EXCEPT !.im[e.h].rc = AnyReader]}
                  ELSE {[s EXCEPT !.im[e.h].rc = y[3]] : y \in {y \in SeekReplies(x.rc, e.n) :
                         /\ e.ret = y[1]
                         /\ e.we => e.err = y[2]
                         /\ IF "progn" \in DOMAIN e      \* too many to list
                            THEN e.cb /\ e.progn = y[4] /\ e.progseq
                            ELSE e.prog = (IF e.cb THEN [k \in 1 .. y[4] |-> k] ELSE <<>>)}}) \cup fault

(* Bulk reading and detection from a file, in terms of opening and reading.  *)
(* What reading all frames of st ends in: "eof", an error, or anything.      *)
FinalErrors(st) == CASE st.st # "ok" -> Errors [] st.tail = "eof" -> {} [] OTHER -> {INVAL}
StepBulk(c, s, e) ==
  CASE e.op = "readimg" ->
         IF e.nullpath THEN Yes(e.ret = PARAM /\ e.im = "null", s)
         ELSE IF \E rd \in Choice(c, e) :
              IF rd = "none" THEN e.ret \in ({UNSUPP} \cup FaultErrors(e)) /\ e.im = "null"
              ELSE LET st == StreamOf(rd, e.file)
                       n == Frames(st)
                       big == c.pmax > 0 /\ st.st = "ok" /\ (Exceeds(st.w, st.h, c.pmax) \/ (n > 0 /\ Exceeds(st.w * n, st.h, c.pmax)))
                       errs == IF big THEN {TOOBIG} ELSE IF OpenErrors(c, e, rd, st) # {} THEN OpenErrors(c, e, rd, st) ELSE FinalErrors(st)
                   IN IF e.ret # OK THEN /\ e.im = "null"
                                         /\ \/ e.ret \in errs
                                            \/ st.st = "ok" /\ st.tail = "any"
                                            \* both errors lie ahead
                                            \/ big /\ st.tail # "eof" /\ e.ret \in {TOOBIG, INVAL}
                                            \/ e.nf > 0 /\ e.ret \in OpenFaults(e, rd)
                      ELSE IF st.st # "ok" THEN st.st # "err"
                      ELSE IF st.tail = "any" THEN ~big
                      ELSE /\ errs = {} /\ e.im = "ok" /\ e.fits
                           /\ e.n = n /\ e.w = st.w /\ e.hh = st.h
                           /\ Len(e.px) = 2 * n * st.w * st.h
                           /\ \A k \in 1 .. n : PixelsOK([st |-> st, file |-> e.file], k, e.px, (k - 1) * st.w * st.h)
              THEN {s} ELSE {}
    [] e.op = "dfile" ->
         IF MaskBad(e.mask) \/ e.nullpath THEN Yes(e.ret = PARAM /\ OutNull(e), s)
         ELSE IF \E rd \in Choice(c, e) :
              IF rd = "none" THEN e.ret \in ({UNSUPP} \cup FaultErrors(e)) /\ OutNull(e)
              ELSE LET st == StreamOf(rd, e.file)
                       n == Frames(st)
                       fi == Files[e.file].fi
                       m == MethodOf(e.m)
                   IN IF st.st \notin {"ok", "err"} \/ (st.st = "ok" /\ st.tail = "any") THEN e.ret = OK \/ (e.ret \in Errors /\ OutNull(e))
                      ELSE LET errs == IF OpenErrors(c, e, rd, st) # {} THEN OpenErrors(c, e, rd, st)
                                       ELSE (IF \E k \in 1 .. Len(st.fr) : Images[fi[k]].bad THEN {INVAL} ELSE {}) \cup FinalErrors(st)
                                            \cup (IF n = 0 /\ st.tail = "eof" THEN {NOIMG} ELSE {})
                           IN \/ Outcome(e, errs, IF errs # {} THEN 0
                                   ELSE [AnalyzeFrames(NewAnalysis(c, m, st.w, st.h, ParOf(s, e.p)), SubSeq(fi, 1, Len(st.fr)), 1, n, 1) EXCEPT !.junk = ScratchLost(c, e, st.w, st.h)])
                              \/ e.nf > 0 /\ e.ret \in OpenFaults(e, rd) /\ OutNull(e)
              THEN {s} ELSE {}

(* ---------------------------------------------------------------- queries *)
MethodNames == <<"sign", "mag", "orig", "zerox">>
StepQuery(c, s, e) ==
  CASE e.op = "queries" ->
         Yes(/\ [k \in 1 .. Len(e.methods) |-> e.methods[k][1]] = MethodNames
             /\ \A k \in 1 .. Len(e.methods) :
                  /\ e.methods[k][2] > 0 /\ e.methods[k][2] <= 1000000000
                  /\ e.methods[k][3] /\ e.methods[k][4]
                  /\ Abs(e.methods[k][2] - DefThr(e.methods[k][1]).ppb) <= 1
             /\ e.def
             /\ e.nomethods = <<>>
             /\ e.readers = c.readers
             /\ e.range = c.range
             /\ e.maxerr = NOIMG
             /\ e.version # "", s)
    [] e.op = "errstr" ->
         Yes(IF e.e < 0 THEN ~e.null /\ e.s = e.sys
             ELSE IF e.e > NOIMG THEN e.null
             ELSE ~e.null /\ ((e.s = "") = (e.e = OK)), s)

(* ------------------------------------------------------------- resources *)
StepQuiesce(c, s, e) ==
  LET none == DOMAIN s.par = {} /\ DOMAIN s.an = {} /\ DOMAIN s.im = {}
  IN Yes(/\ e.in0
         /\ DOMAIN s.im = {} => e.fds = 0
         /\ none => e.live = 0, s)

ParamOps == {"palloc", "pfree", "prange", "pthr", "pfilt"}
AnalysisOps == {"create", "analyze", "analyzen", "results", "destroy", "detect"}
ImageOps == {"open", "openr", "read", "readn", "seek", "close"}
Step(c, s, e) ==
  CASE e.op \in ParamOps -> StepParam(c, s, e)
    [] e.op \in AnalysisOps -> StepAnalysis(c, s, e)
    [] e.op \in ImageOps -> StepImage(c, s, e)
    [] e.op \in {"readimg", "dfile"} -> StepBulk(c, s, e)
    [] e.op \in {"queries", "errstr"} -> StepQuery(c, s, e)
    [] e.op = "quiesce" -> StepQuiesce(c, s, e)
    [] e.op = "leak" -> Yes(e.n = 0, s)
    [] e.op \in {"note", "end"} -> {s}
    [] OTHER -> {}        \* "crash": the library may not
=============================================================================
