------------------------------- MODULE Domain --------------------------------
(* The documented domain of the public calls.  A request names a function and, for       *)
(* each of its arguments, the class its value is drawn from.  Each class is accepted      *)
(* ("A"), rejected ("R") or left open ("F") by the documentation; a request is rejected     *)
(* as soon as one argument is, unless another one makes that argument irrelevant.           *)
(* Interchangeable spellings of one value have the same canonical form: the results of a    *)
(* request and of its canonical form are the same object.                                  *)
EXTENDS Util

(* ---- argument classes: << class, verdict >>; the first one is the plain one ---- *)
Xs ==    << << "plain", "A" >>, << "list", "A" >>, << "ints", "A" >>, << "cplx", "A" >>, << "half", "A" >>, << "single", "A" >>,
            << "none", "R" >>, << "str", "R" >>, << "ragged", "R" >>, << "objs", "R" >>, << "scalar", "R" >>, << "empty", "R" >> >>
\* wavelets: all the spellings of one wavelet, then things that are not a discrete wavelet
WBad ==  << << "unknown", "R" >>, << "cont", "R" >>, << "contobj", "R" >>, << "wnone", "R" >>, << "wint", "R" >>, << "blank", "R" >> >>
W1s ==   << << "name", "A" >>, << "upper", "A" >>, << "obj", "A" >>, << "rebuilt", "A" >>, << "pair", "R" >> >> \o WBad
WNs ==   << << "name", "A" >>, << "upper", "A" >>, << "obj", "A" >>, << "rebuilt", "A" >>, << "each", "A" >>, << "eachlist", "A" >>, << "alone", "A" >>,
            << "count", "R" >>, << "mixbad", "R" >> >> \o WBad
MBad ==  << << "mbad", "R" >>, << "mneg", "R" >>, << "mbig", "R" >>, << "mnone", "R" >>, << "mblank", "R" >>, << "mcase", "R" >> >>
M1s ==   << << "name", "A" >>, << "int", "A" >>, << "enum", "A" >>, << "old", "A" >>, << "mpair", "R" >> >> \o MBad
MNs ==   << << "name", "A" >>, << "int", "A" >>, << "enum", "A" >>, << "old", "A" >>, << "each", "A" >>, << "eachint", "A" >>, << "alone", "A" >>,
            << "count", "R" >>, << "mixbad", "R" >> >> \o MBad
Axis ==  << << "pos", "A" >>, << "neg", "A" >>, << "np", "A" >>, << "over", "R" >>, << "under", "R" >> >>
Axis1 == << << "pos", "A" >>, << "neg", "A" >>, << "over", "R" >>, << "under", "R" >> >>
Axes2 == << << "pos", "A" >>, << "neg", "A" >>, << "mixed", "A" >>, << "axlist", "A" >>, << "swapped", "A" >>,
            << "over", "R" >>, << "under", "R" >>, << "one", "R" >>, << "three", "R" >> >>
AxesN == << << "pos", "A" >>, << "neg", "A" >>, << "mixed", "A" >>, << "axlist", "A" >>, << "all", "A" >>, << "swapped", "A" >>,
            << "over", "R" >>, << "under", "R" >> >>
Dup(v) == << << "dup", v >> >>
Mlev ==  << << "max", "A" >>, << "lnone", "A" >>, << "one", "A" >>, << "zero", "A" >>, << "deep", "A" >>, << "minus", "R" >>, << "minus2", "R" >> >>
Slev ==  << << "one", "A" >>, << "max", "A" >>, << "deep", "R" >>, << "minus", "R" >>, << "minus2", "R" >> >>
Pos ==   << << "one", "A" >>, << "two", "A" >>, << "zero", "R" >>, << "minus", "R" >> >>
Part ==  << << "a", "A" >>, << "d", "A" >>, << "pbad", "R" >>, << "pnone", "R" >>, << "pblank", "R" >> >>
Odd == << << "odd", "R" >> >>
Bool(s) == << << "no", "A" >>, << "yes", "A" >> >>

(* ---- coefficients handed to the inverses: what each class does to the list the forward transform returned ---- *)
C1 ==    << << "fit", "A" >>, << "anone", "A" >>, << "dnone", "A" >>, << "nones", "R" >>, << "longer", "R" >>, << "shorter", "R" >>, << "rank", "R" >>, << "lane", "R" >> >>
CList == << << "fit", "A" >>, << "tuple", "A" >>, << "apponly", "A" >>, << "nonedetail", "A" >>, << "nothing", "R" >>, << "longer", "R" >>, << "shorter", "R" >>, << "rank", "R" >>, << "lane", "R" >> >>
C2 ==    << << "fit", "A" >>, << "anone", "A" >>, << "nonedetail", "A" >>, << "partial", "A" >>, << "two", "R" >>, << "longer", "R" >>, << "shorter", "R" >>, << "lane", "R" >> >>
CList2 == << << "fit", "A" >>, << "tuple", "A" >>, << "apponly", "A" >>, << "nonedetail", "A" >>, << "partial", "A" >>,
            << "nothing", "R" >>, << "two", "R" >>, << "longer", "R" >>, << "shorter", "R" >>, << "lane", "R" >> >>
CN ==    << << "fit", "A" >>, << "missing", "A" >>, << "nonedetail", "A" >>, << "badkey", "R" >>, << "shortkey", "R" >>, << "longer", "R" >>, << "shorter", "R" >>, << "allnone", "R" >>, << "lane", "R" >> >>
CListN == << << "fit", "A" >>, << "tuple", "A" >>, << "apponly", "A" >>, << "missing", "A" >>, << "nonedetail", "R" >>, << "emptylevel", "A" >>,
            << "nothing", "R" >>, << "badkey", "R" >>, << "longer", "R" >>, << "shorter", "R" >>, << "lane", "R" >> >>
CSwt ==  << << "fit", "A" >>, << "tuple", "A" >>, << "longer", "R" >>, << "shorter", "R" >>, << "nothing", "R" >>, << "rank", "R" >>, << "lane", "R" >> >>
CSwt2 == << << "fit", "A" >>, << "tuple", "A" >>, << "longer", "R" >>, << "shorter", "R" >>, << "nothing", "R" >>, << "two", "R" >>, << "onelonger", "R" >>, << "lane", "R" >> >>
CSwtN == << << "fit", "A" >>, << "tuple", "A" >>, << "longer", "R" >>, << "shorter", "R" >>, << "nothing", "R" >>, << "badkey", "R" >>, << "onelonger", "R" >>, << "lane", "R" >> >>
CPack == << << "fit", "A" >>, << "tuple", "A" >>, << "apponly", "A" >>, << "nothing", "R" >>, << "anone", "R" >> >>

A(f, s) == << f, s >>
Args(fn) ==
  CASE fn = "dwt" -> << A("x", Xs), A("w", W1s), A("m", M1s), A("axis", Axis) >>
    [] fn = "idwt" -> << A("c", C1), A("w", W1s), A("m", M1s), A("axis", Axis) >>
    [] fn = "downcoef" -> << A("x", Xs), A("w", W1s), A("m", M1s), A("part", Part), A("level", Pos) >>
    [] fn = "upcoef" -> << A("x", Xs), A("w", W1s), A("part", Part), A("level", Pos), A("take", << << "zero", "A" >>, << "some", "A" >>, << "long", "A" >>, << "minus", "R" >> >>) >>
    [] fn = "dwt2" -> << A("x", Xs), A("w", WNs), A("m", MNs), A("axes", Axes2 \o Dup("F")) >>
    [] fn = "dwtn" -> << A("x", Xs), A("w", WNs), A("m", MNs), A("axes", AxesN \o Dup("F")) >>
    [] fn = "idwt2" -> << A("c", C2), A("w", WNs), A("m", MNs), A("axes", Axes2 \o Dup("F")) >>
    [] fn = "idwtn" -> << A("c", CN), A("w", WNs), A("m", MNs), A("axes", AxesN \o Dup("F")) >>
    [] fn = "wavedec" -> << A("x", Xs), A("w", W1s), A("m", M1s), A("axis", Axis), A("level", Mlev) >>
    [] fn = "wavedec2" -> << A("x", Xs), A("w", WNs), A("m", MNs), A("axes", Axes2 \o Dup("R")), A("level", Mlev) >>
    [] fn = "wavedecn" -> << A("x", Xs), A("w", WNs), A("m", MNs), A("axes", AxesN \o Dup("R")), A("level", Mlev) >>
    [] fn = "fswavedecn" -> << A("x", Xs), A("w", WNs), A("m", MNs), A("axes", AxesN \o Dup("R")),
                               A("levels", << << "max", "A" >>, << "lnone", "A" >>, << "one", "A" >>, << "zero", "A" >>, << "each", "A" >>, << "count", "R" >>, << "minus", "R" >> >>) >>
    [] fn = "waverec" -> << A("c", CList), A("w", W1s), A("m", M1s), A("axis", Axis) >>
    [] fn = "waverec2" -> << A("c", CList2), A("w", WNs), A("m", MNs), A("axes", Axes2 \o Dup("R")) >>
    [] fn = "waverecn" -> << A("c", CListN), A("w", WNs), A("m", MNs), A("axes", AxesN \o Dup("R")) >>
    [] fn = "swt" -> << A("x", Xs \o Odd), A("w", W1s), A("axis", Axis), A("level", Slev \o << << "lnone", "A" >>, << "zero", "R" >> >>),
                        A("start", << << "zero", "A" >>, << "one", "A" >>, << "deep", "R" >>, << "minus", "R" >> >>), A("trim", Bool("trim")), A("norm", Bool("norm")) >>
    [] fn = "swt2" -> << A("x", Xs \o Odd), A("w", WNs), A("axes", Axes2 \o Dup("R")), A("level", Slev \o << << "zero", "F" >>, << "lnone", "R" >> >>),
                        A("start", << << "zero", "A" >>, << "one", "A" >>, << "deep", "R" >>, << "minus", "R" >> >>), A("trim", Bool("trim")), A("norm", Bool("norm")) >>
    [] fn = "swtn" -> << A("x", Xs \o Odd), A("w", WNs), A("axes", AxesN \o Dup("R")), A("level", Slev \o << << "zero", "F" >>, << "lnone", "R" >> >>),
                        A("start", << << "zero", "A" >>, << "one", "A" >>, << "deep", "R" >>, << "minus", "R" >> >>), A("trim", Bool("trim")), A("norm", Bool("norm")) >>
    [] fn = "iswt" -> << A("c", CSwt), A("w", W1s), A("axis", Axis), A("trim", Bool("trim")), A("norm", Bool("norm")) >>
    [] fn = "iswt2" -> << A("c", CSwt2), A("w", WNs), A("axes", Axes2 \o Dup("R")), A("trim", Bool("trim")), A("norm", Bool("norm")) >>
    [] fn = "iswtn" -> << A("c", CSwtN), A("w", WNs), A("axes", AxesN \o Dup("R")), A("trim", Bool("trim")), A("norm", Bool("norm")) >>
    [] fn = "mra" -> << A("x", Xs), A("w", W1s), A("m", M1s), A("axis", Axis), A("level", << << "one", "A" >>, << "lnone", "A" >>, << "max", "A" >>, << "minus", "R" >> >>),
                        A("tr", << << "dwt", "A" >>, << "swt", "A" >>, << "tbad", "R" >> >>) >>
    [] fn = "mra2" -> << A("x", Xs), A("w", WNs), A("m", MNs), A("axes", Axes2), A("level", << << "one", "A" >>, << "lnone", "A" >>, << "max", "A" >>, << "minus", "R" >> >>),
                        A("tr", << << "dwt", "A" >>, << "swt", "A" >>, << "tbad", "R" >> >>) >>
    [] fn = "mran" -> << A("x", Xs), A("w", WNs), A("m", MNs), A("axes", AxesN), A("level", << << "one", "A" >>, << "lnone", "A" >>, << "max", "A" >>, << "minus", "R" >> >>),
                        A("tr", << << "dwt", "A" >>, << "swt", "A" >>, << "tbad", "R" >> >>) >>
    [] fn \in {"packet", "packet2", "packetn"} ->
         << A("x", SelectSeq(Xs, LAMBDA c : c[1] \notin {"empty", "none", "list"})), A("w", W1s), A("m", IF fn = "packet" THEN M1s ELSE MNs),
            IF fn = "packet" THEN A("axis", Axis) ELSE A("axes", (IF fn = "packet2" THEN Axes2 ELSE AxesN) \o Dup("R")),
            A("level", << << "one", "A" >>, << "two", "A" >>, << "deep", "R" >> >>),
            A("ord", << << "natural", "A" >>, << "freq", "A" >>, << "obad", "R" >> >>),
            A("path", << << "pfit", "A" >>, << "pchar", "R" >>, << "pdeep", "R" >>, << "ptype", "R" >> >>) >>
    [] fn = "cwt" ->
         << A("x", SelectSeq(Xs, LAMBDA c : c[1] # "objs")), A("cw", << << "name", "A" >>, << "upper", "A" >>, << "obj", "A" >>, << "rebuilt", "A" >>, << "unknown", "R" >>, << "discrete", "R" >>, << "discobj", "R" >>,
                            << "wnone", "R" >>, << "wint", "R" >>, << "blank", "R" >>, << "pair", "R" >>, << "badparam", "R" >> >>),
            A("axis", Axis), A("scales", << << "arr", "A" >>, << "list", "A" >>, << "tuple", "A" >>, << "scalar", "A" >>, << "zero", "R" >>, << "minus", "R" >>, << "snone", "R" >>, << "sstr", "R" >>, << "nan", "R" >>, << "tiny", "R" >> >>),
            A("meth", << << "conv", "A" >>, << "fft", "A" >>, << "methbad", "R" >> >>) >>
    [] fn = "threshold" -> << A("x", SelectSeq(Xs, LAMBDA c : c[1] \in {"plain", "list", "ints", "cplx", "half", "single", "str", "ragged"})),
                              A("th", << << "soft", "A" >>, << "hard", "A" >>, << "garrote", "A" >>, << "garotte", "A" >>, << "thbad", "R" >>, << "thnone", "R" >> >>), A("val", << << "pos", "A" >>, << "zero", "A" >>, << "vnone", "R" >>, << "vstr", "R" >> >>) >>
    [] fn = "threshold_firm" -> << A("x", SelectSeq(Xs, LAMBDA c : c[1] \in {"plain", "list", "ints", "cplx", "half", "single", "str", "ragged"})),
                              A("lims", << << "ordered", "A" >>, << "equal", "A" >>, << "fromzero", "A" >>, << "reversed", "R" >>, << "minus", "R" >>, << "vnone", "R" >> >>) >>
    [] fn = "pad" -> << A("x", SelectSeq(Xs, LAMBDA c : c[1] \in {"plain", "list", "ints", "cplx", "half", "single", "ragged"})),
                        A("pm", << << "name", "A" >>, << "mbad", "R" >>, << "mnone", "R" >>, << "mblank", "R" >>, << "mcase", "R" >> >>),
                        A("pw", << << "wpairs", "A" >>, << "wpair", "A" >>, << "wint", "A" >>, << "wzero", "A" >>, << "wminus", "R" >>, << "wtriple", "R" >>, << "wmany", "R" >>, << "wstr", "R" >> >>) >>
    [] fn = "shapes" -> << A("w", WNs), A("m", MNs), A("axes", AxesN \o Dup("R")), A("level", Mlev) >>
    [] fn = "maxleveln" -> << A("w", WNs), A("axes", SelectSeq(AxesN, LAMBDA c : TRUE)) >>
    [] fn = "maxlevel" -> << A("n", << << "fit", "A" >>, << "short", "A" >>, << "nminus", "R" >>, << "nstr", "R" >> >>),
                             A("flt", << << "flen", "A" >>, << "wobj", "A" >>, << "wname", "A" >>, << "fone", "R" >>, << "fzero", "R" >>, << "fminus", "R" >>, << "fbad", "R" >>, << "fcont", "R" >> >>) >>
    [] fn = "coefflen" -> << A("n", << << "fit", "A" >>, << "short", "A" >>, << "nzero", "R" >>, << "nminus", "R" >>, << "nstr", "R" >> >>),
                             A("flt", << << "flen", "A" >>, << "fone", "A" >>, << "fzero", "R" >>, << "fminus", "R" >>, << "fbad", "R" >> >>), A("m", M1s) >>
    [] fn = "wavelet" -> << A("w", SelectSeq(W1s, LAMBDA c : c[1] \notin {"obj", "contobj"})) >>
    [] fn = "wavefun" -> << A("w", SelectSeq(W1s, LAMBDA c : c[1] \notin {"cont", "contobj"})), A("level", Pos) >>
    [] fn = "contin" -> << A("cw", << << "name", "A" >>, << "upper", "A" >>, << "rebuilt", "A" >>, << "unknown", "R" >>, << "discrete", "R" >>, << "wnone", "R" >>, << "wint", "R" >>, << "blank", "R" >>, << "pair", "R" >>, << "badparam", "R" >> >>) >>
    [] fn \in {"integrate", "centfreq", "scale2freq", "freq2scale"} ->
         << A("w", SelectSeq(W1s, LAMBDA c : c[1] \notin {"cont", "contobj"}) \o << << "cont", "A" >>, << "contobj", "A" >> >>), A("prec", << << "eight", "A" >>, << "four", "A" >>, << "pzero", "F" >>, << "pminus", "R" >> >>) >>
    [] fn = "toarray" -> << A("c", CPack \o << << "partial", "F" >> >>), A("axes", AxesN \o Dup("F")) >>
    [] fn = "ravel" -> << A("c", CPack), A("axes", AxesN \o Dup("F")) >>
    [] fn = "fromarray" -> << A("sl", << << "slfit", "A" >>, << "slempty", "R" >>, << "slnone", "R" >> >>), A("fmt", << << "fdec", "A" >>, << "fbad", "R" >>, << "fnone", "R" >> >>) >>
    [] fn = "unravel" -> << A("sl", << << "slfit", "A" >>, << "slempty", "R" >>, << "slnone", "R" >>, << "slcount", "R" >>, << "slshape", "R" >> >>), A("fmt", << << "fdec", "A" >>, << "fbad", "R" >>, << "fnone", "R" >> >>) >>
    [] fn = "wavelist" -> << A("fam", << << "famnone", "A" >>, << "fam", "A" >>, << "fambad", "R" >>, << "famint", "R" >> >>), A("kind", << << "kall", "A" >>, << "kdisc", "A" >>, << "kcont", "A" >>, << "kbad", "R" >> >>) >>
    [] fn = "modes" -> << A("m", M1s) >>
    [] OTHER -> << >>
Fns == << "dwt", "idwt", "downcoef", "upcoef", "dwt2", "dwtn", "idwt2", "idwtn", "wavedec", "wavedec2", "wavedecn", "fswavedecn", "waverec", "waverec2", "waverecn",
          "swt", "swt2", "swtn", "iswt", "iswt2", "iswtn", "mra", "mra2", "mran", "packet", "packet2", "packetn", "cwt", "threshold", "threshold_firm", "pad", "shapes",
          "maxleveln", "maxlevel", "coefflen", "wavelet", "wavefun", "contin", "integrate", "centfreq", "scale2freq", "freq2scale", "toarray", "ravel", "fromarray", "unravel",
          "wavelist", "modes" >>

FnSet == { Fns[k] : k \in DOMAIN Fns }
\* function -> argument -> class -> verdict
Table == [fn \in FnSet |->
  LET q == Args(fn)
  IN [f \in { q[k][1] : k \in DOMAIN q } |->
        LET cs == q[CHOOSE k \in DOMAIN q : q[k][1] = f][2]
        IN [c \in { cs[k][1] : k \in DOMAIN cs } |-> cs[CHOOSE k \in DOMAIN cs : cs[k][1] = c][2]]]]
PlainTable == [fn \in FnSet |->
  LET q == Args(fn)
  IN [f \in { q[k][1] : k \in DOMAIN q } |-> q[CHOOSE k \in DOMAIN q : q[k][1] = f][2][1][1]]]
Fields(fn) == DOMAIN Table[fn]
Classes(fn, f) == DOMAIN Table[fn][f]
Plain(fn) == PlainTable[fn]
ClassVerdict(fn, f, c) == Table[fn][f][c]

Is(a, f, S) == f \in DOMAIN a /\ a[f] \in S
Multi == {"wavedec", "wavedec2", "wavedecn", "shapes", "fswavedecn"}
(* an argument made irrelevant by another one *)
Idle(fn, a, f) ==
  \/ fn \in Multi /\ (Is(a, "level", {"zero"}) \/ Is(a, "levels", {"zero"})) /\ (f = "m" \/ (f = "x" /\ a.x \in {"empty", "objs"}))
  \/ fn \in Multi \cup {"mra", "mra2", "mran"} /\ Is(a, "x", {"empty"}) /\ (Is(a, "level", {"max", "lnone"}) \/ Is(a, "levels", {"max", "lnone"})) /\ f \in {"x", "m"}   \* no level fits an empty axis
  \/ fn \in {"waverec", "waverec2", "waverecn"} /\ a.c = "apponly" /\ f # "c"          \* nothing to invert
  \/ fn \in {"toarray", "ravel"} /\ a.c = "apponly" /\ f = "axes"
(* combinations the documentation says nothing about *)
Open(fn, a) ==
  \/ fn = "fswavedecn" /\ a.axes = "all" /\ a.x \in {"none", "scalar", "str"}   \* no axis, nothing to transform
  \/ fn = "swt" /\ a.level = "lnone" /\ a.start # "zero"              \* the default depth is that from level zero
  \/ fn \in {"mra", "mra2", "mran"} /\ a.tr = "swt" /\ a.m # "name"    \* the mode is for the decimated transform only
  \/ fn \in {"idwt2", "idwtn", "waverec2", "waverecn", "toarray", "ravel", "iswt2", "iswtn"} /\ Is(a, "axes", {"dup"})
     /\ ~ (fn \in {"iswt2", "iswtn"} /\ a.c = "fit")
  \/ Is(a, "c", {"lane"}) /\ Is(a, "axes", {"all"})                     \* no axis is left alone
  \/ fn = "cwt" /\ a.x = "empty"
  \/ fn \in {"ravel"} /\ Is(a, "axes", {"over", "under"})            \* the subbands already say how they are laid out
  \/ fn \in {"packetn"} /\ Is(a, "axes", {"all"}) /\ a.x = "list"
Verdict(fn, a) ==
  LET relevant == { f \in Fields(fn) : ~ Idle(fn, a, f) }
      bad == { f \in relevant : ClassVerdict(fn, f, a[f]) = "R" }
      idle == { f \in Fields(fn) \ relevant : ClassVerdict(fn, f, a[f]) # "A" }
      open == { f \in relevant : ClassVerdict(fn, f, a[f]) = "F" }
  IN IF open # {} \/ Open(fn, a) THEN "F" ELSE IF bad # {} THEN "R" ELSE IF idle # {} THEN "F" ELSE "A"

(* ---- interchangeable spellings ---- *)
CanonClass(fn, f, c) ==
  CASE c = "rebuilt" /\ fn \in {"wavefun", "integrate", "centfreq", "scale2freq", "freq2scale"} -> c    \* the sign convention needs the family
    [] f \in {"w", "m"} /\ c \in {"upper", "obj", "rebuilt", "each", "eachlist", "alone", "int", "enum", "old", "eachint"} -> "name"
    [] f = "cw" /\ c \in {"upper", "obj", "rebuilt"} -> "name"
    [] f = "x" /\ c = "list" -> "plain"
    [] f = "axis" /\ c \in {"neg", "np"} -> "pos"
    [] f = "axes" /\ c \in {"neg", "mixed", "axlist"} -> "pos"
    [] f = "c" /\ c = "tuple" -> "fit"
    [] f = "level" /\ c = "lnone" /\ fn \in (Multi \cup {"mra", "mra2", "mran", "swt"}) -> "max"
    [] f = "levels" /\ c = "lnone" -> "max"
    [] f = "scales" /\ c \in {"list", "tuple"} -> "arr"
    [] f = "th" /\ c = "garotte" -> "garrote"
    [] f = "flt" /\ c \in {"wobj", "wname"} -> "flen"
    [] OTHER -> c
Canon(fn, a) == [f \in Fields(fn) |-> CanonClass(fn, f, a[f])]
=============================================================================
