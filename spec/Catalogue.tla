------------------------------ MODULE Catalogue ------------------------------
(* What is built in: every wavelet's name, family and declared attributes, in the    *)
(* order in which the names are listed.                                              *)
EXTENDS Util

Fam(short, long, disc) == [short |-> short, long |-> long, disc |-> disc]
Families == <<
  Fam("haar", "Haar", TRUE), Fam("db", "Daubechies", TRUE), Fam("sym", "Symlets", TRUE), Fam("coif", "Coiflets", TRUE),
  Fam("bior", "Biorthogonal", TRUE), Fam("rbio", "Reverse biorthogonal", TRUE),
  Fam("dmey", "Discrete Meyer (FIR Approximation)", TRUE),
  Fam("gaus", "Gaussian", FALSE), Fam("mexh", "Mexican hat wavelet", FALSE), Fam("morl", "Morlet wavelet", FALSE),
  Fam("cgau", "Complex Gaussian wavelets", FALSE), Fam("shan", "Shannon wavelets", FALSE),
  Fam("fbsp", "Frequency B-Spline wavelets", FALSE), Fam("cmor", "Complex Morlet wavelets", FALSE) >>

None == "None"
D(name, fam, num, len, psi, phi, sym, orth) ==
  [name |-> name, fam |-> fam, num |-> num, len |-> len, psi |-> psi, phi |-> phi, sym |-> sym, orth |-> orth, biorth |-> TRUE]
\* bounds and parameters of continuous wavelets in hundredths
K(name, fam, num, sym, cplx, bound, fc, fb, ord) ==
  [name |-> name, fam |-> fam, num |-> num, sym |-> sym, cplx |-> cplx, lo |-> -100 * bound, hi |-> 100 * bound, fc |-> fc, fb |-> fb,
   ord |-> ord, orth |-> FALSE, biorth |-> FALSE]

NoPar == -1                                    \* parameter does not apply
BiorTab == << <<1,1,2>>, <<1,3,6>>, <<1,5,10>>, <<2,2,6>>, <<2,4,10>>, <<2,6,14>>, <<2,8,18>>, <<3,1,4>>, <<3,3,8>>, <<3,5,12>>,
              <<3,7,16>>, <<3,9,20>>, <<4,4,10>>, <<5,5,12>>, <<6,8,18>> >>
Nm(f, n) == f \o ToString(n)
Bior(f) == Tab(15, LAMBDA i : LET b == BiorTab[i] IN
   D(f \o ToString(b[1]) \o "." \o ToString(b[2]), f, 10 * b[1] + b[2], b[3], ToString(b[1]), ToString(b[2]), "symmetric", FALSE))
Gauss(f, c) == Tab(8, LAMBDA n : K(Nm(f, n), f, n, IF n % 2 = 0 THEN "symmetric" ELSE "anti-symmetric", c, 5, NoPar, NoPar, NoPar))

Listed ==
  Bior("bior") \o Gauss("cgau", TRUE)
  \o << K("cmor", "cmor", 0, "asymmetric", TRUE, 8, 50, 100, NoPar) >>
  \o Tab(17, LAMBDA n : D(Nm("coif", n), "coif", n, 6 * n, ToString(2 * n), ToString(2 * n - 1), "near symmetric", TRUE))
  \o Tab(38, LAMBDA n : D(Nm("db", n), "db", n, 2 * n, ToString(n), "0", "asymmetric", TRUE))
  \o << D("dmey", "dmey", 0, 62, None, None, "symmetric", TRUE),
        K("fbsp", "fbsp", 0, "asymmetric", TRUE, 20, 50, 100, 2) >>
  \o Gauss("gaus", FALSE)
  \o << D("haar", "haar", 0, 2, "1", "0", "asymmetric", TRUE),
        K("mexh", "mexh", 0, "symmetric", FALSE, 8, NoPar, NoPar, NoPar), K("morl", "morl", 0, "symmetric", FALSE, 8, NoPar, NoPar, NoPar) >>
  \o Bior("rbio")
  \o << K("shan", "shan", 0, "asymmetric", TRUE, 20, 100, 50, NoPar) >>
  \o Tab(19, LAMBDA n : D(Nm("sym", n + 1), "sym", n + 1, 2 * (n + 1), ToString(n + 1), "0", "near symmetric", TRUE))

LongName(short) == Families[CHOOSE i \in DOMAIN Families : Families[i].short = short].long
IsDisc(e) == Has(e, "len")
Names(P(_)) == Map(LAMBDA e : e.name, SelectSeq(Listed, P))
\* the listing asked for: a family's names, or all / discrete / continuous ones
ListOf(family, kind) ==
  IF family # "" THEN Names(LAMBDA e : e.fam = family)
  ELSE Names(LAMBDA e : kind = "all" \/ (kind = "discrete") = IsDisc(e))
Index == [n \in RangeOf(Map(LAMBDA e : e.name, Listed)) |-> CHOOSE i \in DOMAIN Listed : Listed[i].name = n]
Entry(n) == Listed[Index[n]]

(* digits (powers of two) to which a published table satisfies the bank's identities *)
Digits(n) ==
  CASE n \in {"sym9"} -> 47
    [] n \in {"sym10", "sym11", "sym12", "sym13"} -> 42
    [] n \in {"sym5", "sym8", "sym14", "sym15", "bior6.8", "rbio6.8"} -> 40
    [] n \in {"sym2", "sym4", "sym6", "sym7", "sym17", "bior4.4", "rbio4.4", "bior5.5", "rbio5.5"} -> 38
    [] n \in {"sym3", "sym16", "sym18", "sym19"} -> 36
    [] n = "sym20" -> 35
    [] n = "dmey" -> 8
    [] OTHER -> 50
=============================================================================
