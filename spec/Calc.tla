-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* The calculations on larrys: reductions, elementwise and cumulative      *)
(* functions, moving windows, rankings, normalisations, group statistics,  *)
(* covariance and correlation, label mapping, resampling, shuffling and    *)
(* creation (properties C14, C16-C26).                                     *)
(*                                                                         *)
(* Irrational results are recorded, and specified, after an injective      *)
(* transformation: standard deviations, z-scores and correlations as       *)
(* signed squares, gaussian ranks through the normal distribution          *)
(* function, geometric means as base-2 logarithms.                         *)
(***************************************************************************)
EXTENDS Larry

Cnt(s) == IntC(Len(s))
SignedSq(c) == IF IsNum(c) THEN <<0, Sgn(c[2]) * c[2] * c[2], c[3] * c[3]>> ELSE c
AxesAll(L) == 1..ND(L)

-----------------------------------------------------------------------------
(* Statistics of a sequence of cells; missing (NaN) cells are ignored.     *)

Nums(s) == [i \in 1..Len(s) |-> AsNum(s[i])]
Valid(s) == NotNaN(Nums(s))
MeanOf(v) == IF v = <<>> THEN NaN ELSE Div(SumSeq(v), Cnt(v))
MedianOf(v) ==
  IF v = <<>> THEN NaN
  ELSE LET o == SortCells(v)  n == Len(v)  h == n \div 2
       IN IF n % 2 = 1 THEN o[h + 1] ELSE Div(Add(o[h], o[h + 1]), IntC(2))
MaxOf(v) == IF v = <<>> THEN NaN ELSE FoldLeft(MaxC, v[1], v)
MinOf(v) == IF v = <<>> THEN NaN ELSE FoldLeft(MinC, v[1], v)
(* Sum of the squared deviations from the mean.                            *)
SqDev(v) ==
  IF \A i \in 1..Len(v) : IsNum(v[i])
  THEN LET w == [i \in 1..Len(v) |-> Sub(v[i], v[1])]
           S == SumSeq(w)  Q == SumSeq([i \in 1..Len(w) |-> Mul(w[i], w[i])])
       IN Div(Sub(Mul(IntC(Len(v)), Q), Mul(S, S)), IntC(Len(v)))
  ELSE LET m == MeanOf(v)
       IN SumSeq([i \in 1..Len(v) |-> Mul(Sub(v[i], m), Sub(v[i], m))])
(* bottleneck: a single value with ddof = 1 gives 0/0 *)
VarOf(v, ddof) == IF v = <<>> THEN NaN
                  ELSE Div(SqDev(v), IntC(Len(v) - ddof))

RedKind(f, k) ==
  CASE f \in {"sum", "prod"} -> (IF k = "b" THEN "i" ELSE k)
    [] f \in {"max", "min"} -> k
    [] f \in {"any", "all"} -> "b"
    [] OTHER -> "f"
(* s is the slice with its cells of kind k *)
RedCell(f, k, s, ddof) ==
  LET v == Valid(s)
      back(c) == IF k = "b" /\ ~IsNaN(c) THEN Boo(Truth(c)) ELSE c
  IN CASE f = "sum" -> IF v = <<>> THEN NaN ELSE SumSeq(v)
       [] f = "prod" -> IF v = <<>> THEN NaN ELSE ProdSeq(v)
       [] f \in {"mean", "gmean"} -> MeanOf(v)
       [] f = "median" -> MedianOf(v)
       [] f \in {"var", "std"} -> VarOf(v, ddof)
       [] f = "max" -> back(MaxOf(v))
       [] f = "min" -> back(MinOf(v))
       [] f = "any" -> Boo(\E i \in 1..Len(s) : Truth(s[i]))
       [] f = "all" -> Boo(\A i \in 1..Len(s) : Truth(s[i]))
(* What reducing an empty larry gives *)
RedEmptyKind(f, k) == IF f \in {"any", "all"} THEN "b" ELSE "f"
RedEmptyCell(f) == CASE f = "any" -> Boo(FALSE) [] f = "all" -> Boo(TRUE) [] OTHER -> NaN

DropLab(L, a) == DropAt(L.lab, a)
Reduced(L, a, k, d) ==
  IF ND(L) = 1 THEN OkS(k, d[1]) ELSE OkL(k, DropAt(L.sh, a), d, DropLab(L, a))
Reduce(L, f, ax, ddof) ==
  IF ax # NoAxis /\ ~AxisOK(ax, ND(L)) THEN Err
  ELSE IF Size(L) = 0
  THEN LET k == RedEmptyKind(f, L.k)  c == RedEmptyCell(f) IN
       IF ax = NoAxis \/ ND(L) = 1 THEN OkS("?", c)
       ELSE LET a == NormAx(ax, ND(L))  sh == DropAt(L.sh, a)
            IN OkL(k, sh, Const(Prod(sh), c), DropLab(L, a))
  ELSE IF ax = NoAxis THEN OkS(RedKind(f, L.k), RedCell(f, L.k, L.d, ddof))
  ELSE LET a == NormAx(ax, ND(L))
       IN Reduced(L, a, RedKind(f, L.k),
                  ReduceD(L.sh, L.d, a, LAMBDA s : RedCell(f, L.k, s, ddof)))

-----------------------------------------------------------------------------
(* C17: missing values                                                     *)

CellPred(f, k, c) ==
  CASE f = "ismissing" -> IsMissing(k, c)
    [] f = "isnan" -> IsNaN(c)
    [] f = "isinf" -> IsInf(c)
    [] f = "isfinite" -> IsFin(c)
MapPred(L, f) ==
  IF f # "ismissing" /\ L.k \notin NumKinds THEN Unspecified
  ELSE Ok(MapCells(L, "b", LAMBDA c : Boo(CellPred(f, L.k, c))))
NX(L) == OkI(<<Len(SelectSeq(L.d, IsFin))>>)
Nans(sh, k) == IF HasMissing(k)
               THEN OkL(k, sh, Const(Prod(sh), MissingOf(k)), <<>>) ELSE Err
MissingMarker(L) == IF HasMissing(L.k) THEN OkS("?", MissingOf(L.k)) ELSE OkN
NanReplace(L, c) ==
  IF L.k = "f" THEN Ok(MapCells(L, "f", LAMBDA z : IF IsNaN(z) THEN c ELSE z))
  ELSE IF L.k = "i" THEN Ok(L) ELSE Unspecified
(* A missing cell takes the most recent finite value not more than w back *)
PushLine(s, w) ==
  [i \in 1..Len(s) |->
     IF IsFin(s[i]) THEN s[i]
     ELSE LET S == {j \in 1..(i - 1) : IsFin(s[j])} IN
          IF S = {} THEN NaN
          ELSE IF i - Max(S) <= w THEN s[Max(S)] ELSE NaN]
Push(L, w, ax) ==
  IF ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET a == NormAx(ax, ND(L))
       IN OkL(L.k, L.sh, MapLinesD(L.sh, L.d, a, L.sh[a], LAMBDA s : PushLine(s, w)),
              L.lab)

-----------------------------------------------------------------------------
(* C18: elementwise and cumulative functions                               *)

SqrtC(c) ==                            \* perfect squares only
  IF IsNum(c)
  THEN IF c[2] < 0 THEN NaN
       ELSE Num(CHOOSE r \in 0..MaxI(c[2], 1) : r * r = c[2],
                CHOOSE r \in 1..c[3] : r * r = c[3])
  ELSE IF c = NInf THEN NaN ELSE c
ClipC(c, lo, hi) == IF IsNaN(c) THEN c ELSE MinC(MaxC(c, lo), hi)
Unary(L, f) ==
  CASE f \in {"neg", "pos", "abs", "sign"} ->
         (IF L.k = "b" /\ f # "pos" THEN Unspecified
          ELSE Ok(MapCells(L, L.k, LAMBDA c :
            CASE f = "neg" -> Neg(c)
              [] f = "pos" -> c
              [] f = "abs" -> IF SignOf(c) < 0 /\ ~IsNaN(c) THEN Neg(c) ELSE c
              [] f = "sign" -> IF IsNaN(c) THEN c ELSE IntC(SignOf(c)))))
    [] f = "invert" -> (IF L.k # "b" THEN Err
                        ELSE Ok(MapCells(L, "b", LAMBDA c : Boo(~Truth(c)))))
    [] f = "sqrt" -> Ok(MapCells(L, "f", LAMBDA c : SqrtC(AsNum(c))))
    \* recorded through exp on the way in, or log on the way out
    [] f \in {"log", "exp"} -> Ok(MapCells(L, "f", LAMBDA c : AsNum(c)))
Power(L, q) ==
  Ok(MapCells(L, L.k, LAMBDA c : IF q < 0 THEN Div(IntC(1), PowN(c, -q)) ELSE PowN(c, q)))
HalfPower(L, q) ==                      \* q halves; cells are squares
  Ok(MapCells(L, "f", LAMBDA c :
       IF IsNaN(c) THEN NaN ELSE IF IsInf(c) THEN PInf
       ELSE IF c[2] < 0 THEN NaN ELSE PowN(SqrtC(c), q)))
Clip(L, lo, hi) ==
  IF Cmp(lo, hi) > 0 THEN Err
  ELSE Ok(MapCells(L, L.k, LAMBDA c : ClipC(c, lo, hi)))
AsType(L, k) == Ok(MapCells(L, k, LAMBDA c : ToKind(c, k)))

(* running fold over the non-missing cells; missing cells stay missing *)
CumLine(s, f) ==
  LET step(st, c) ==
        IF IsNaN(c) THEN <<st[1], Append(st[2], NaN)>>
        ELSE LET v == IF f = "cumsum" THEN Add(st[1], AsNum(c)) ELSE Mul(st[1], AsNum(c))
             IN <<v, Append(st[2], v)>>
  IN FoldLeft(step, <<IF f = "cumsum" THEN IntC(0) ELSE IntC(1), <<>>>>, s)[2]
Cumulative(L, f, ax) ==
  IF ax = NoAxis \/ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET a == NormAx(ax, ND(L))
       IN OkL(IF L.k = "b" THEN "i" ELSE L.k, L.sh,
              MapLinesD(L.sh, L.d, a, L.sh[a], LAMBDA s : CumLine(s, f)), L.lab)

(* fm: sequence of <<from, to>> *)
FMap(fm, x) == fm[CHOOSE i \in 1..Len(fm) : fm[i][1] = x][2]
MapLabel(L, fm, ax) ==
  IF ax # NoAxis /\ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET axes == IF ax = NoAxis THEN AxesAll(L) ELSE {NormAx(ax, ND(L))}
       IN Ok([L EXCEPT !.lab = [a \in 1..ND(L) |->
                IF a \in axes THEN [i \in 1..L.sh[a] |-> FMap(fm, L.lab[a][i])]
                ELSE L.lab[a]]])
(* unique: sorted distinct cells, first positions and inverse *)
DistinctCells(d) == SortCells(SetToSeq(SetOf(d)))
UniqueOp(L, ri, rv) ==
  LET u == DistinctCells(L.d)
      one(b, v) == IF b = 1 THEN <<v>> ELSE <<>>
  IN OkV(<<L4(L.k, <<Len(u)>>, u, <<>>)>> \o
         one(ri, VI([i \in 1..Len(u) |-> Lookup(L.d, u[i])])) \o
         one(rv, VI([i \in 1..Len(L.d) |-> Lookup(u, L.d[i])])))
(* isint, isfloat, isscalar, isstring of a value: a Python or numpy int "i",
   float "f", bool "b", str "s" or something else "o" *)
TypePred(f, k) ==
  LET r == CASE f = "isint" -> k = "i"
             [] f = "isfloat" -> k = "f"
             [] f = "isscalar" -> k \in {"i", "f"}
             [] f = "isstring" -> k = "s"
  IN OkI(<<IF r THEN 1 ELSE 0>>)

-----------------------------------------------------------------------------
(* C19: moving windows                                                     *)

LastRank(s, m) ==                      \* weight of position i is 2^(m i)
  LET n == Len(s)
      w(i) == 2 ^ (m * (i - 1))
      x == s[n]
      tot(P(_)) == FoldLeft(LAMBDA acc, i : IF P(i) THEN acc + w(i) ELSE acc, 0,
                            [i \in 1..n |-> i])
      gt(i) == Lt(Nums(s)[i], AsNum(x))
      eq(i) == EqC(s[i], x)
      fi(i) == IsFin(s[i])
      r == Num(2 * tot(gt) + tot(eq) - w(n), 2)
  IN IF n = 0 THEN NaN
     ELSE IF ~IsFin(x) THEN NaN
     ELSE Mul(IntC(2), Sub(Div(r, IntC(tot(fi) - w(n))), Num(1, 2)))

(* the generic functions handed to move_func by the recorder *)
FuncOf(f, s, par) ==
  CASE f \in {"sum", "mean", "min", "max", "median", "std"} -> RedCell(f, "f", s, par)
    [] f = "ranking" -> LastRank(s, 0)
    [] f = "first" -> AsNum(s[1])                        \* position in window
    [] f = "lastval" -> AsNum(s[Len(s)])
    [] f = "wsum" ->                                     \* sum_i (i + par) x_i
         FoldLeft(Add, IntC(0), [i \in 1..Len(s) |-> Mul(IntC(i - 1 + par), AsNum(s[i]))])
    [] f = "count" -> IntC(Len(Valid(s)) + par)
MoveLine(f, s, w, par) ==
  [i \in 1..Len(s) |-> IF i < w THEN NaN ELSE FuncOf(f, SubSeq(s, i - w + 1, i), par)]
Move(L, f, w, ax, par) ==
  IF ax = NoAxis \/ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET a == NormAx(ax, ND(L)) IN
       IF w < 1 \/ w > L.sh[a] THEN Err
       ELSE OkL("f", L.sh,
                MapLinesD(L.sh, L.d, a, L.sh[a], LAMBDA s : MoveLine(f, s, w, par)), L.lab)
FwdCell(s, i, w, skip, norm) ==
  LET lo == i + skip  hi == i + skip + w - 1 IN
  IF hi > Len(s) THEN NaN
  ELSE LET v == Valid(SubSeq(s, lo, hi)) IN
       IF v = <<>> THEN NaN
       ELSE IF norm = 1 THEN Div(Mul(IntC(w), SumSeq(v)), Cnt(v)) ELSE SumSeq(v)
(* back = 1: in the other direction                                        *)
MovingSum(L, w, skip, ax, norm, back) ==
  IF ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET a == NormAx(ax, ND(L)) IN
       IF w < 1 \/ w > L.sh[a] \/ skip > L.sh[a] THEN Err
       ELSE IF w + skip > L.sh[a] THEN Unspecified
       ELSE OkL("f", L.sh, MapLinesD(L.sh, L.d, a, L.sh[a], LAMBDA s :
                 [i \in 1..Len(s) |->
                    IF back = 0 THEN FwdCell(s, i, w, skip, norm)
                    ELSE FwdCell(Reverse(s), Len(s) + 1 - i, w, skip, norm)]), L.lab)

-----------------------------------------------------------------------------
(* C20: rankings                                                           *)

RankLine(s0, norm) ==
  LET s == Nums(s0)
      n == Len(s)
      v == Valid(s)
      cnt == Len(v)
      Rank(x) ==                       \* average rank, from 0
        LET lt(c) == Lt(c, x)  eq(c) == EqC(c, x)
        IN Num(2 * Len(SelectSeq(v, lt)) + Len(SelectSeq(v, eq)) - 1, 2)
      cell(x) ==
        IF IsNaN(x) THEN NaN
        ELSE CASE norm = "-1,1" ->
                    IF cnt = 1 THEN IntC(0)
                    ELSE Sub(Div(Mul(IntC(2), Rank(x)), IntC(cnt - 1)), IntC(1))
               [] norm = "0,N-1" ->
                    IF cnt = 1 THEN Num(n - 1, 2)
                    ELSE Div(Mul(IntC(n - 1), Rank(x)), IntC(cnt - 1))
               [] norm = "gaussian" ->
                    IF cnt = 1 THEN Num(1, 2)
                    ELSE Div(Add(Div(Mul(IntC(n - 1), Rank(x)), IntC(cnt - 1)), IntC(1)),
                             IntC(n + 1))
  IN [i \in 1..n |-> cell(s[i])]
Norms == {"-1,1", "0,N-1", "gaussian"}
(* apply a line function along an axis, or to all cells together *)
AlongOrAll(L, k, ax, F(_)) ==
  IF ax = NoAxis THEN OkL(k, L.sh, F(L.d), L.lab)
  ELSE LET a == NormAx(ax, ND(L))
       IN OkL(k, L.sh, MapLinesD(L.sh, L.d, a, L.sh[a], F), L.lab)
Ranking(L, ax, norm) ==
  IF norm \notin Norms \/ (ax # NoAxis /\ ~AxisOK(ax, ND(L))) THEN Err
  ELSE AlongOrAll(L, "f", ax, LAMBDA s : RankLine(s, norm))
LastRankOp(L, ax, m) ==
  IF ~AxisOK(ax, ND(L)) \/ (m < 0 /\ Size(L) > 0) THEN Err
  ELSE LET a == NormAx(ax, ND(L)) IN
       IF Size(L) = 0
       THEN IF ND(L) = 1 THEN OkS("?", NaN)
            ELSE OkL("f", DropAt(L.sh, a), Const(Prod(DropAt(L.sh, a)), NaN), DropLab(L, a))
       ELSE Reduced(L, a, "f", ReduceD(L.sh, L.d, a, LAMBDA s : LastRank(s, m)))

Dyadic(d) == d \in {1, 2, 4, 8, 16}
QuantLine(s0, q) ==
  LET s == Nums(s0)
      v == Valid(s)
      n == Len(v)
      pos(x) == LET lt(c) == Lt(c, x) IN Len(SelectSeq(v, lt))
      \* the last bin takes the rest; bin j ends at j (n - 1) / q
      bin(p) == CHOOSE j \in 1..q : /\ (j = q \/ p * q <= j * (n - 1))
                                    /\ \A i \in 1..(j - 1) : p * q > i * (n - 1)
      \* on a bin edge that floating point cannot represent
      edge(p) == p > 0 /\ (p * q) % MaxI(n - 1, 1) = 0
                 /\ ~Dyadic(q \div Gcd(q, MaxI(n - 1, 1)))
      cell(x) == IF IsNaN(x) THEN NaN
                 ELSE LET p == pos(x) IN
                      IF edge(p) THEN AnyCell
                      ELSE Sub(Div(IntC(2 * (bin(p) - 1)), IntC(q - 1)), IntC(1))
  IN [i \in 1..Len(s) |-> cell(s[i])]
Quantile(L, q, ax) ==
  IF ax # NoAxis /\ ~AxisOK(ax, ND(L)) THEN Err
  ELSE IF q < 1 THEN Err
  ELSE IF q = 1 THEN OkL("f", L.sh, [i \in 1..Len(L.d) |->
                             IF IsNaN(L.d[i]) THEN NaN ELSE IntC(0)], L.lab)
  ELSE IF q > (IF ax = NoAxis THEN Size(L) ELSE L.sh[NormAx(ax, ND(L))]) THEN Err
  ELSE AlongOrAll(L, "f", ax, LAMBDA s : QuantLine(s, q))

-----------------------------------------------------------------------------
(* C21: demean, demedian, zscore                                           *)

NormLine(f, s0) ==
  LET s == Nums(s0)  v == Valid(s)
      m == IF f = "demedian" THEN MedianOf(v) ELSE MeanOf(v)
      var == IF f = "zscore" THEN VarOf(v, 0) ELSE IntC(1)
      cell(x) == LET y == Sub(x, m) IN
                 IF f # "zscore" \/ IsNaN(y) THEN y
                 ELSE IF var = IntC(0) THEN NaN        \* 0/0
                 ELSE Div(SignedSq(y), var)            \* recorded squared
  IN [i \in 1..Len(s) |-> cell(s[i])]
Normalize(L, f, ax) ==
  IF ax # NoAxis /\ ~AxisOK(ax, ND(L)) THEN Err
  ELSE AlongOrAll(L, "f", ax, LAMBDA s : NormLine(f, s))

-----------------------------------------------------------------------------
(* C22: group statistics                                                   *)

NoGroup(k, c) == IsNaN(c) \/ c = NoneVal
GroupLine(f, s0, g, norm) ==
  LET s == Nums(s0)
      n == Len(s)
      members(i) == LET same(j) == g[j] = g[i]
                    IN SelectSeq([j \in 1..n |-> j], same)
      at(i) == LET m == members(i) IN CHOOSE z \in 1..Len(m) : m[z] = i
      cell(i) ==
        IF IsNaN(g[i]) \/ g[i] = NoneVal THEN NaN
        ELSE LET m == members(i)
                 x == [z \in 1..Len(m) |-> s[m[z]]]
             IN CASE f = "group_mean" -> MeanOf(Valid(x))
                  [] f = "group_median" -> MedianOf(Valid(x))
                  [] f = "group_ranking" -> RankLine(x, norm)[at(i)]
  IN [i \in 1..n |-> cell(i)]
Group(L, G, f, ax, norm) ==
  IF ~AxisOK(ax, ND(L)) \/ ND(G) # 1 THEN Err
  ELSE LET a == NormAx(ax, ND(L))
           idx == MapIdx(G.lab[1], L.lab[a])
       IN IF HasNeg(idx) THEN Err
          ELSE LET g == [i \in 1..L.sh[a] |-> G.d[idx[i] + 1]]
               IN OkL("f", L.sh,
                      MapLinesD(L.sh, L.d, a, L.sh[a], LAMBDA s : GroupLine(f, s, g, norm)), L.lab)

-----------------------------------------------------------------------------
(* C23: resampling                                                         *)

(* Position lists are 0-based.  order: the shuffled list of positions.     *)
CVFolds(n, k, order) ==
  LET per == n \div k
      lo(f) == per * (f - 1)
      hi(f) == IF f = k THEN n ELSE per * f
  IN [f \in 1..k |->
        [train |-> SubSeq(order, 1, lo(f)) \o SubSeq(order, hi(f) + 1, n),
         test |-> SubSeq(order, lo(f) + 1, hi(f))]]
CVBad(n, k) == n < 2 \/ k < 2 \/ k > n
(* what holds whatever the (unknown) shuffle *)
CVRel(n, k, folds) ==
  /\ Len(folds) = k
  /\ \A f \in 1..k :
       /\ NoDup(folds[f].train) /\ NoDup(folds[f].test)
       /\ SetOf(folds[f].train) \cap SetOf(folds[f].test) = {}
       /\ SetOf(folds[f].train) \cup SetOf(folds[f].test) = 0..(n - 1)
       /\ Len(folds[f].test) = IF f = k THEN n - (n \div k) * (k - 1) ELSE n \div k
  /\ \A f, g \in 1..k : f # g => SetOf(folds[f].test) \cap SetOf(folds[g].test) = {}
BootBad(n, b) == n < 2 \/ b < 1
BootRel(n, b, folds) ==
  /\ Len(folds) = b
  /\ \A f \in 1..b :
       /\ Len(folds[f].train) = n
       /\ SetOf(folds[f].train) \subseteq 0..(n - 1)
       /\ NoDup(folds[f].test)
       /\ folds[f].test # <<>>
       /\ SetOf(folds[f].test) = (0..(n - 1)) \ SetOf(folds[f].train)
(* draws: what the given randint produced, one sequence per call *)
BootDraws(n, b, draws) ==
  LET ok(s) == SetOf(s) # 0..(n - 1)
      good == SelectSeq(draws, ok)
  IN SubSeq(good, 1, b)
Split(L, tr, te, ax) ==
  LET A == Take(L, tr, ax)  B == Take(L, te, ax) IN
  IF A.st # "ok" \/ B.st # "ok" THEN Err ELSE OkV(<<A.v, B.v>>)
(* numpy arrays may repeat positions *)
TakeArr(A, idx, ax) ==
  LET a == NormAx(ax, Len(A.sh))  n == A.sh[a]
  IN L4(A.k, SetAt(A.sh, a, Len(idx)),
        TakeD(A.sh, A.d, a, [i \in 1..Len(idx) |-> NormPos(idx[i], n)], NaN), <<>>)

-----------------------------------------------------------------------------
(* C24: shuffling, as relations between the larry before and after         *)

IsPermSeq(s, t) == /\ Len(s) = Len(t)
                   /\ \A x \in SetOf(s) \cup SetOf(t) :
                        Len(SelectSeq(s, LAMBDA y : y = x)) =
                        Len(SelectSeq(t, LAMBDA y : y = x))
SlicesOf(L, a) == [p \in 1..L.sh[a] |-> SliceCells(L, a, p - 1)]
(* All arrays reachable by one permutation of whole slices per axis.  With
   distinct cells it is enough that every pair of cells that shared its
   position on an axis still does. *)
SameStructure(L, M) ==
  LET pos(d, c) == CHOOSE i \in 1..Len(d) : d[i] = c
      mi(d, c) == Unravel(pos(d, c) - 1, L.sh)
  IN /\ IsPermSeq(L.d, M.d)
     /\ \A i, j \in 1..Len(L.d) :
          LET p == Unravel(i - 1, L.sh)  q == Unravel(j - 1, L.sh)
              p2 == mi(M.d, L.d[i])  q2 == mi(M.d, L.d[j])
          IN \A a \in 1..ND(L) : (p[a] = q[a]) <=> (p2[a] = q2[a])
ShuffleOK(L, M, ax) ==
  /\ M.lab = L.lab /\ M.sh = L.sh /\ M.k = L.k
  /\ IF ax = NoAxis THEN SameStructure(L, M)
     ELSE IsPermSeq(SlicesOf(L, NormAx(ax, ND(L))), SlicesOf(M, NormAx(ax, ND(L))))
(* all orders of 0..m-1 *)
PermsOf(m) == {s \in [1..m -> 0..(m - 1)] : NoDup(s)}
ShuffleLabelOK(L, M, ax) ==
  /\ M.d = L.d /\ M.sh = L.sh /\ M.k = L.k
  /\ Len(M.lab) = Len(L.lab)
  /\ \A a \in 1..ND(L) :
       IF ax = NoAxis \/ NormAx(ax, ND(L)) = a THEN IsPermSeq(L.lab[a], M.lab[a])
       ELSE L.lab[a] = M.lab[a]

(* sortby: a permutation of the columns (rows) in the order of the key row
   (column), missing keys last; equal keys in any order. *)
SortByOK(L, M, name, ax, rev) ==
  LET a == NormAx(ax, 2)  b == 3 - a
      p == Lookup(L.lab[a], name)
      key(z) == LET q == Lookup(L.lab[b], z) IN
                At(L.sh, L.d, IF a = 1 THEN <<p, q>> ELSE <<q, p>>)
      le(x, y) == IF IsNaN(y) THEN TRUE ELSE IF IsNaN(x) THEN FALSE ELSE Cmp(x, y) <= 0
  IN /\ M.k = L.k /\ M.lab[a] = L.lab[a]
     /\ IsPermSeq(L.lab[b], M.lab[b])
     /\ M = Sel(L, b, MapIdx(L.lab[b], M.lab[b]))
     /\ \A i \in 1..(L.sh[b] - 1) :
          LET x == AsNum(key(M.lab[b][i]))  y == AsNum(key(M.lab[b][i + 1]))
          IN IF rev = 1 THEN le(y, x) ELSE le(x, y)
SortByErr(L, name, ax) ==
  ND(L) # 2 \/ ~AxisOK(ax, 2) \/ Lookup(L.lab[NormAx(ax, 2)], name) < 0

-----------------------------------------------------------------------------
(* C25: covariance and correlation                                         *)

Cov(L) ==
  IF ND(L) # 2 THEN Err
  ELSE LET n == L.sh[1]
           row(i) == Nums(Line(L.sh, L.d, 2, i))
           both(i, j) == LET P(t) == ~IsNaN(row(i)[t]) /\ ~IsNaN(row(j)[t])
                         IN SelectSeq([t \in 1..L.sh[2] |-> t], P)
           cell(ix) == LET b == both(ix[1], ix[2]) IN
                       Div(SumSeq([t \in 1..Len(b) |->
                             Mul(row(ix[1])[b[t]], row(ix[2])[b[t]])]), Cnt(b))
       IN IF \E i, j \in 0..(n - 1) : Len(both(i, j)) < 2 THEN Err
          ELSE OkL("f", <<n, n>>, Build(<<n, n>>, cell), <<L.lab[1], L.lab[1]>>)

CorrOf(s, t) ==                        \* signed square of the correlation
  LET P(i) == ~IsNaN(s[i]) /\ ~IsNaN(t[i])
      b == SelectSeq([i \in 1..Len(s) |-> i], P)
      x == [i \in 1..Len(b) |-> AsNum(s[b[i]])]
      y == [i \in 1..Len(b) |-> AsNum(t[b[i]])]
      mx == MeanOf(x)  my == MeanOf(y)
      sxy == SumSeq([i \in 1..Len(b) |-> Mul(Sub(x[i], mx), Sub(y[i], my))])
  IN IF b = <<>> THEN NaN
     ELSE LET vx == SqDev(x)  vy == SqDev(y) IN
          IF vx = IntC(0) \/ vy = IntC(0) THEN NaN
          ELSE Div(Div(SignedSq(sxy), vx), vy)
Correlation(A, B, ax) ==
  IF ax # NoAxis /\ ~AxisOK(ax, ND(A)) THEN Err
  ELSE IF ax = NoAxis THEN OkS("f", CorrOf(A.d, B.d))
  ELSE LET a == NormAx(ax, ND(A))
           d == [j \in 1..NLines(A.sh, a) |->
                   CorrOf(Line(A.sh, A.d, a, j - 1), Line(B.sh, B.d, a, j - 1))]
       IN IF ND(A) = 1 THEN OkS("f", d[1]) ELSE OkL("f", DropAt(A.sh, a), d, <<>>)

-----------------------------------------------------------------------------
(* C26: creation.  e.hassh, e.sh, e.haslab, e.lab; e.range: default labels *)

CreateShape(e) == IF e.haslab = 1 THEN [a \in 1..Len(e.lab) |-> Len(e.lab[a])] ELSE e.sh
CreateLab(e) == IF e.haslab = 1 THEN e.lab ELSE e.range
Create(e, k, F(_)) ==
  IF e.haslab = 0 /\ e.hassh = 0 THEN Err
  ELSE IF e.haslab = 1 /\ \E a \in 1..Len(e.lab) : ~NoDup(e.lab[a]) THEN Err
  ELSE LET sh == CreateShape(e)
       IN OkL(k, sh, [i \in 1..Prod(sh) |-> F(i)], CreateLab(e))

-----------------------------------------------------------------------------
(* C14: label mapping                                                      *)

(* of equal labels in l1 the last one counts *)
LookupLast(s, v) ==
  LET P == {i \in 1..Len(s) : s[i] = v} IN IF P = {} THEN -1 ELSE Max(P) - 1
ListMap(l1, l2, ignore) ==
  LET idx == [i \in 1..Len(l2) |-> LookupLast(l1, l2[i])] IN
  IF ignore = 1 THEN OkI(SelectSeq(idx, LAMBDA p : p >= 0))
  ELSE IF HasNeg(idx) THEN Err ELSE OkI(idx)
ListMapFill(l1, l2, fill) ==
  LET idx == [i \in 1..Len(l2) |-> LookupLast(l1, l2[i])]
      miss(p) == idx[p + 1] < 0
  IN OkV(<<VI([i \in 1..Len(l2) |-> IF idx[i] < 0 THEN fill ELSE idx[i]]),
           VI(SelectSeq(Iota(Len(l2)), miss))>>)

(* all tuples of labels, in C order (the last list varies fastest) or in
   F order (the first one does) *)
FlattenLabel(labs, order) ==
  LET sh == [a \in 1..Len(labs) |-> Len(labs[a])]
      d == Build(sh, LAMBDA ix : TupleCode([a \in 1..Len(labs) |-> labs[a][ix[a] + 1]]))
  IN IF order = "C" THEN OkV(<<VI(d)>>)
     ELSE IF order = "F" THEN OkV(<<VI(RavelF(sh, d))>>) ELSE Err

-----------------------------------------------------------------------------
(* C32: the comparison used for testing                                    *)

EqualLarrys(L, M, dtype) ==
  /\ L.lab = M.lab /\ L.sh = M.sh /\ (dtype = 1 => L.dt = M.dt)
  /\ \A i \in 1..Len(L.d) : AsNum(L.d[i]) = AsNum(M.d[i])
EqualScalars(a, b, dtype) ==
  AsNum(a.c) = AsNum(b.c) /\ (dtype = 1 => a.k = b.k)
=============================================================================
