------------------------------- MODULE Larry -------------------------------
(***************************************************************************)
(* Labelled arrays and the operations on them, as operators from operands  *)
(* and arguments to an outcome.                                            *)
(*                                                                         *)
(* A larry is [k, sh, d, lab]: dtype kind, shape, flat cells in C order,   *)
(* one sequence of labels per axis.  Labels are integers whose order is    *)
(* the order in which Python sorts the labels; a tuple label is the base-64*)
(* number 1 a1 a2 ... of its components.                                   *)
(*                                                                         *)
(* An outcome is one of                                                    *)
(*   [st |-> "ok", v |-> value]                                            *)
(*   [st |-> "err"]          the operation must be refused (raise)         *)
(*   [st |-> "any"]          outside the specified domain                  *)
(* with values tagged  L (larry), S (scalar), I (integers), V (several),   *)
(* N (nothing).                                                            *)
(***************************************************************************)
EXTENDS NdArray

Err == [st |-> "err"]
Unspecified == [st |-> "any"]
Ok(v) == [st |-> "ok", v |-> v]
L4(k, sh, d, lab) == [t |-> "L", k |-> k, sh |-> sh, d |-> d, lab |-> lab]
OkL(k, sh, d, lab) == Ok(L4(k, sh, d, lab))
OkS(k, c) == Ok([t |-> "S", k |-> k, c |-> c])
OkI(s) == Ok([t |-> "I", i |-> s])
OkV(s) == Ok([t |-> "V", v |-> s])
OkN == Ok([t |-> "N"])
VS(k, c) == [t |-> "S", k |-> k, c |-> c]
VI(s) == [t |-> "I", i |-> s]

Ndim(L) == Len(L.sh)
ND(L) == Len(L.sh)
Size(L) == Prod(L.sh)
NoDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
SetOf(s) == {s[i] : i \in 1..Len(s)}
SortSet(S) == SortSeq(SetToSeq(S), LAMBDA a, b : a < b)
SortInts(s) == SortSeq(s, LAMBDA a, b : a < b)

(* One label list per axis, as long as the axis, without duplicates. *)
WellFormed(L) ==
  /\ Len(L.lab) = Len(L.sh)
  /\ \A a \in 1..Len(L.sh) : Len(L.lab[a]) = L.sh[a] /\ NoDup(L.lab[a])
  /\ Len(L.d) = Prod(L.sh)

Lookup(s, v) == IF \E i \in 1..Len(s) : s[i] = v
                THEN (CHOOSE i \in 1..Len(s) : s[i] = v) - 1 ELSE -1
MapIdx(from, to) == IF from = to THEN Iota(Len(from))
                    ELSE [i \in 1..Len(to) |-> Lookup(from, to[i])]
HasNeg(idx) == \E i \in 1..Len(idx) : idx[i] < 0

EmptyLarry == L4("f", <<0>>, <<>>, <<<<>>>>)
Cast(L, k) == IF L.k = k THEN L
              ELSE L4(k, L.sh, [i \in 1..Len(L.d) |-> ToKind(L.d[i], k)], L.lab)
(* Select positions on one axis (all >= 0). *)
Sel(L, a, idx) ==
  L4(L.k, SetAt(L.sh, a, Len(idx)), TakeD(L.sh, L.d, a, idx, NaN),
     SetAt(L.lab, a, [i \in 1..Len(idx) |-> L.lab[a][idx[i] + 1]]))
RECURSIVE SelAllR(_, _, _)
SelAllR(L, sel, a) == IF a > Len(sel) THEN L
                      ELSE SelAllR(Sel(L, a, sel[a]), sel, a + 1)
SelAll(L, sel) == SelAllR(L, sel, 1)
MapCells(L, k, F(_)) == L4(k, L.sh, [i \in 1..Len(L.d) |-> F(L.d[i])], L.lab)

-----------------------------------------------------------------------------
(* C01: construction.  e.lab is the label argument: a sequence of          *)
(* [list |-> 0/1, v |-> labels]; e.haslab = 0 for the default labels.      *)

RangeLab(sh) == [a \in 1..Len(sh) |-> Iota(sh[a])]
Construct(e) ==
  LET sh == e.x[1].sh IN
  IF e.haslab = 0
  THEN IF Len(sh) = 0 THEN Err ELSE OkL(e.x[1].k, sh, e.x[1].d, e.range)
  ELSE IF \/ Len(sh) = 0
          \/ Len(e.lab) # Len(sh)
          \/ \E a \in 1..Len(sh) : \/ Len(e.lab[a].v) # sh[a]
                                   \/ ~NoDup(e.lab[a].v)
                                   \/ e.lab[a].list = 0
       THEN Err
       ELSE OkL(e.x[1].k, sh, e.x[1].d, [a \in 1..Len(sh) |-> e.lab[a].v])

-----------------------------------------------------------------------------
(* C02: reordering and reshaping                                           *)

SortAxis(L, ax, rev) ==
  IF ax # NoAxis /\ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET axes == IF ax = NoAxis THEN 1..ND(L) ELSE {NormAx(ax, ND(L))}
           sel == [a \in 1..ND(L) |->
                    IF a \in axes
                    THEN LET s == SortInts(L.lab[a])
                         IN MapIdx(L.lab[a], IF rev = 1 THEN Rev(s) ELSE s)
                    ELSE Iota(L.sh[a])]
       IN Ok(SelAll(L, sel))

FlipAxis(L, ax) ==
  IF ax # NoAxis /\ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET axes == IF ax = NoAxis THEN 1..ND(L) ELSE {NormAx(ax, ND(L))}
       IN Ok(SelAll(L, [a \in 1..ND(L) |->
               IF a \in axes THEN Rev(Iota(L.sh[a])) ELSE Iota(L.sh[a])]))

Permute(L, p) == L4(L.k, PermuteSh(L.sh, p), PermuteD(L.sh, L.d, p),
                    [i \in 1..ND(L) |-> L.lab[p[i]]])
Transpose(L) == Ok(Permute(L, Rev([i \in 1..ND(L) |-> i])))
SwapAxes(L, ax1, ax2) ==
  IF ~AxisOK(ax1, ND(L)) \/ ~AxisOK(ax2, ND(L)) THEN Err
  ELSE LET a == NormAx(ax1, ND(L))  b == NormAx(ax2, ND(L))
       IN Ok(Permute(L, [i \in 1..ND(L) |-> IF i = a THEN b
                                            ELSE IF i = b THEN a ELSE i]))

(* axis counts positions in the result, -1 meaning last *)
InsertAxis(L, ax, label) ==
  LET nd == ND(L) + 1
      a == IF ax < 0 THEN ax + nd + 1 ELSE ax + 1
  IN IF a < 1 \/ a > nd THEN Unspecified
     ELSE OkL(L.k, InsAt(L.sh, a, 1), L.d, InsAt(L.lab, a, <<label>>))

Squeeze(L) ==
  LET keep(i) == L.sh[i] # 1
      ax == SelectSeq([i \in 1..ND(L) |-> i], keep)
  IN OkL(L.k, [i \in 1..Len(ax) |-> L.sh[ax[i]]], L.d,
         [i \in 1..Len(ax) |-> L.lab[ax[i]]])

(* Python positions, possibly negative, on an axis of length n *)
PosOK(p, n) == p >= -n /\ p < n
NormPos(p, n) == IF p < 0 THEN p + n ELSE p
Take(L, idx, ax) ==
  IF ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET a == NormAx(ax, ND(L))  n == L.sh[a] IN
       IF \E i \in 1..Len(idx) : ~PosOK(idx[i], n) THEN Err
       ELSE LET s == [i \in 1..Len(idx) |-> NormPos(idx[i], n)]
            IN IF ~NoDup(s) THEN Err ELSE Ok(Sel(L, a, s))

(* Tuple labels *)
RECURSIVE TupleCodeR(_, _, _)
TupleCodeR(s, i, acc) == IF i > Len(s) THEN acc
                         ELSE TupleCodeR(s, i + 1, acc * 64 + s[i])
TupleCode(s) == TupleCodeR(s, 1, 1)
RECURSIVE UnTupleR(_)
UnTupleR(c) == IF c < 64 THEN <<>> ELSE Append(UnTupleR(c \div 64), c % 64)
UnTuple(c) == UnTupleR(c)

LabelTuples(L) == Build(L.sh, LAMBDA ix : TupleCode([a \in 1..ND(L) |-> L.lab[a][ix[a] + 1]]))
LabelTuplesF(L) == RavelF(L.sh, LabelTuples(L))
Flatten(L, order) ==
  IF order = "C" THEN OkL(L.k, <<Size(L)>>, L.d, <<LabelTuples(L)>>)
  ELSE IF order = "F"
       THEN OkL(L.k, <<Size(L)>>, RavelF(L.sh, L.d), <<LabelTuplesF(L)>>)
       ELSE Err

(* 3d -> 2d: rows are (axis 1, axis 2) pairs, columns are axis 0 *)
Panel(L) ==
  IF ND(L) # 3 THEN Err
  ELSE LET p == Permute(L, <<2, 3, 1>>)
           rows == Build(<<L.sh[2], L.sh[3]>>, LAMBDA ix :
                     TupleCode(<<L.lab[2][ix[1] + 1], L.lab[3][ix[2] + 1]>>))
       IN OkL(L.k, <<L.sh[2] * L.sh[3], L.sh[1]>>, p.d, <<rows, L.lab[1]>>)

-----------------------------------------------------------------------------
(* C03: morphing                                                           *)

MorphTo(L, a, label) ==
  IF L.lab[a] = label THEN L
  ELSE LET idx == MapIdx(L.lab[a], label)
           k == IF HasNeg(idx) THEN FillKind(L.k) ELSE L.k
           M == Cast(L, k)
       IN L4(IF Len(label) = 0 /\ ~HasMissing(L.k) THEN "?" ELSE k,
             SetAt(L.sh, a, Len(label)),
             TakeD(M.sh, M.d, a, idx, MissingOf(k)),
             SetAt(L.lab, a, label))
Morph(L, label, ax) ==
  IF ~AxisOK(ax, ND(L)) \/ ~NoDup(label) THEN Err
  ELSE Ok(MorphTo(L, NormAx(ax, ND(L)), label))
RECURSIVE MorphAll(_, _, _)
MorphAll(L, labs, a) ==
  IF a > Len(labs) THEN L
  ELSE MorphAll(MorphTo(IF L.k = "?" THEN [L EXCEPT !.k = "f"] ELSE L, a, labs[a]),
                labs, a + 1)
MorphLike(L, M) == IF ND(L) # ND(M) THEN Err
                   ELSE LET R == MorphAll(L, M.lab, 1)
                        IN Ok(IF Size(R) = 0 THEN [R EXCEPT !.k = "?"] ELSE R)

-----------------------------------------------------------------------------
(* C04: selections by content                                              *)

Positions(n, P(_)) == SelectSeq(Iota(n), P)     \* 0-based positions with P

LabelCond(op, v, z) ==
  CASE op = "==" -> z = v[1] [] op = "!=" -> z # v[1]
    [] op = ">" -> z > v[1] [] op = "<" -> z < v[1]
    [] op = ">=" -> z >= v[1] [] op = "<=" -> z <= v[1]
    [] op = "in" -> \E i \in 1..Len(v) : v[i] = z
    [] op = "not in" -> \A i \in 1..Len(v) : v[i] # z
LabelOps == {"==", "!=", ">", "<", ">=", "<=", "in", "not in"}
KeepLabel(L, op, v, ax) ==
  IF op \notin LabelOps \/ ax = NoAxis \/ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET a == NormAx(ax, ND(L))
           P(p) == LabelCond(op, v, L.lab[a][p + 1])
           s == Positions(L.sh[a], P)
       IN IF Len(s) = 0 THEN Ok(EmptyLarry) ELSE Ok(Sel(L, a, s))

(* Cells of the slice at position p of axis a *)
SliceCells(L, a, p) == TakeD(L.sh, L.d, a, <<p>>, NaN)
AnyFinite(s) == \E i \in 1..Len(s) : IsFin(s[i])

VacuumAxes(L, axes) ==                 \* remove non-finite slices on `axes`
  SelAll(L, [a \in 1..ND(L) |->
    IF a \in axes
    THEN LET P(p) == AnyFinite(SliceCells(L, a, p)) IN Positions(L.sh[a], P)
    ELSE Iota(L.sh[a])])
Vacuum(L, axs) ==                      \* axs = <<>> encodes axis=None
  IF \E i \in 1..Len(axs) : ~AxisOK(axs[i], ND(L)) THEN Err
  ELSE Ok(VacuumAxes(L, (1..ND(L)) \ {NormAx(axs[i], ND(L)) : i \in 1..Len(axs)}))

KeepX(L, op, c, vac) ==
  IF vac = 1 /\ ND(L) # 2 THEN Err
  ELSE IF op \notin {"==", "!=", ">", "<", ">=", "<="} THEN Err
  ELSE LET M == MapCells(L, "f", LAMBDA z : IF Compare(op, z, c) THEN z ELSE NaN)
       IN Ok(IF vac = 1 THEN VacuumAxes(M, 1..2) ELSE M)

(* fraction is fn/fd.  A slice is cut unless the finite part of it exceeds
   1 - fraction. *)
CutMissing(L, fn, fd, ax) ==
  IF ax # NoAxis /\ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET keepax == IF ax = NoAxis THEN {} ELSE {NormAx(ax, ND(L))}
           R == SelAll(L, [a \in 1..ND(L) |->
              IF a \in keepax THEN Iota(L.sh[a])
              ELSE LET P(p) == LET s == SliceCells(L, a, p)
                                   f == Len(SelectSeq(s, IsFin))
                               IN f * fd > (fd - fn) * Len(s)
                   IN Positions(L.sh[a], P)])
       IN Ok(IF Size(R) = 0 THEN EmptyLarry ELSE R)

Pull(L, name, ax) ==
  IF ax = NoAxis \/ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET a == NormAx(ax, ND(L))  p == Lookup(L.lab[a], name) IN
       IF p < 0 THEN Err
       ELSE IF ND(L) = 1 THEN OkS(L.k, L.d[p + 1])
       ELSE OkL(L.k, DropAt(L.sh, a), SliceCells(L, a, p), DropAt(L.lab, a))

(* The value found under label t afterwards is the one that was nlag earlier *)
Lag(L, nlag, ax) ==
  IF ax = NoAxis \/ ~AxisOK(ax, ND(L)) THEN (IF nlag = 0 THEN Unspecified ELSE Err)
  ELSE LET a == NormAx(ax, ND(L))
           n == L.sh[a]
           m == IF Abs(nlag) >= n THEN 0 ELSE n - Abs(nlag)
           src == IF nlag >= 0 THEN 0 ELSE n - m
           lsrc == IF nlag >= 0 THEN n - m ELSE 0
       IN IF m = 0 THEN OkL(L.k, SetAt(L.sh, a, 0), <<>>, SetAt(L.lab, a, <<>>))
          ELSE OkL(L.k, SetAt(L.sh, a, m),
                   TakeD(L.sh, L.d, a, [i \in 1..m |-> src + i - 1], NaN),
                   SetAt(L.lab, a, SubSeq(L.lab[a], lsrc + 1, lsrc + m)))

-----------------------------------------------------------------------------
(* C05: alignment of two larrys                                            *)

Joins == {"inner", "outer", "left", "right", "skip"}
JoinLabel(l1, l2, j) ==
  CASE j = "inner" -> IF l1 = l2 THEN l1 ELSE SortSet(SetOf(l1) \cap SetOf(l2))
    [] j = "outer" -> IF l1 = l2 THEN l1 ELSE SortSet(SetOf(l1) \cup SetOf(l2))
    [] j = "left"  -> l1
    [] j = "right" -> l2
    [] j = "skip"  -> <<>>
RECURSIVE TakeFill(_, _, _, _, _)
TakeFill(sh, d, idxs, a, miss) ==
  IF a > Len(sh) THEN d
  ELSE TakeFill(SetAt(sh, a, Len(idxs[a])), TakeD(sh, d, a, idxs[a], miss),
                idxs, a + 1, miss)

(* L brought to the labels labs (all axes at once) *)
Bring(L, labs) ==
  LET idx == [a \in 1..ND(L) |-> MapIdx(L.lab[a], labs[a])]
      k == IF \E a \in 1..ND(L) : HasNeg(idx[a]) THEN FillKind(L.k) ELSE L.k
      M == Cast(L, k)
  IN L4(k, [a \in 1..ND(L) |-> Len(labs[a])],
        TakeFill(M.sh, M.d, idx, 1, MissingOf(k)), labs)
NeedsCast(L, labs) ==
  /\ ~HasMissing(L.k)
  /\ \E a \in 1..ND(L) : HasNeg(MapIdx(L.lab[a], labs[a]))
JoinedLabels(L, M, js, own) ==
  [a \in 1..ND(L) |-> IF js[a] = "skip" THEN own.lab[a]
                      ELSE JoinLabel(L.lab[a], M.lab[a], js[a])]
Align(L, M, js, cast) ==
  IF ND(L) # ND(M) THEN Err
  ELSE IF Len(js) # ND(L) \/ (\E a \in 1..Len(js) : js[a] \notin Joins) THEN Err
  ELSE LET la == JoinedLabels(L, M, js, L)  lb == JoinedLabels(L, M, js, M) IN
       IF cast = 0 /\ (NeedsCast(L, la) \/ NeedsCast(M, lb)) THEN Err
       ELSE OkV(<<Bring(L, la), Bring(M, lb)>>)
(* align_raw also reports the joined labels, None for a skipped axis, and
   whether each output is an untouched view of the input data. *)
AlignRaw(L, M, js, cast) ==          \* two arrays and the label lists
  LET o == Align(L, M, js, cast) IN
  IF o.st # "ok" THEN o
  ELSE LET A == o.v.v[1]  B == o.v.v[2]
       IN OkV(<<[A EXCEPT !.lab = <<>>], [B EXCEPT !.lab = <<>>]>> \o
              [a \in 1..ND(L) |-> VI(IF js[a] = "skip" THEN <<-1>> ELSE A.lab[a])])

-----------------------------------------------------------------------------
(* C06: operators.  Kinds of results and cell operations.                  *)

Arith == {"add", "sub", "mul", "div", "truediv", "floordiv"}
Logic == {"and", "or"}
Comps == {"==", "!=", "<", "<=", ">", ">="}
NumKinds == {"f", "i", "b"}
HiKind(k1, k2) == IF k1 = "f" \/ k2 = "f" THEN "f"
                  ELSE IF k1 = "i" \/ k2 = "i" THEN "i" ELSE "b"
OpKind(op, k1, k2) ==
  IF op \in Comps \cup Logic THEN "b"
  ELSE LET h == HiKind(k1, k2)
       IN CASE op = "truediv" -> "f"
            [] op \in {"div", "floordiv"} -> (IF h = "b" THEN "i" ELSE h)
            [] OTHER -> h
OpCell(op, k1, k2, x0, y0) ==
  LET h == HiKind(k1, k2)  x == AsNum(x0)  y == AsNum(y0) IN
  CASE op = "add" -> IF h = "b" THEN Boo(Truth(x) \/ Truth(y)) ELSE Add(x, y)
    [] op = "sub" -> IF h = "b" THEN Boo(Truth(x) # Truth(y)) ELSE Sub(x, y)
    [] op = "mul" -> IF h = "b" THEN Boo(Truth(x) /\ Truth(y)) ELSE Mul(x, y)
    [] op = "truediv" -> Div(x, y)
    [] op = "div" -> IF h = "f" THEN Div(x, y) ELSE FloorDivI(x, y)
    [] op = "floordiv" -> IF h = "f" THEN FloorDivF(x, y) ELSE FloorDivI(x, y)
    [] op = "and" -> Boo(Truth(x0) /\ Truth(y0))
    [] op = "or" -> Boo(Truth(x0) \/ Truth(y0))
    [] op \in Comps -> Boo(Compare(op, x0, y0))
OpDomain(op, k1, k2) ==
  \/ k1 \in NumKinds /\ k2 \in NumKinds
  \/ k1 = k2 /\ k1 = "S" /\ op \in Comps
  \/ k1 = k2 /\ k1 = "O" /\ op \in {"==", "!="}

ZipCells(op, A, B) ==
  L4(OpKind(op, A.k, B.k), A.sh,
     [i \in 1..Len(A.d) |-> OpCell(op, A.k, B.k, A.d[i], B.d[i])], A.lab)
OpLL(op, L, M) ==
  IF ND(L) # ND(M) THEN Err
  ELSE IF ~OpDomain(op, L.k, M.k) THEN Unspecified
  ELSE LET labs == [a \in 1..ND(L) |-> JoinLabel(L.lab[a], M.lab[a], "inner")]
       IN Ok(ZipCells(op, Bring(L, labs), Bring(M, labs)))
(* scalar operand: refl = 1 if it is on the left *)
OpLS(op, L, k, c, refl) ==
  IF ~OpDomain(op, L.k, k) THEN Unspecified
  ELSE OkL(OpKind(op, L.k, k), L.sh,
           [i \in 1..Len(L.d) |-> IF refl = 1 THEN OpCell(op, k, L.k, c, L.d[i])
                                  ELSE OpCell(op, L.k, k, L.d[i], c)], L.lab)
OpLA(op, L, k, d, refl) ==             \* array operand of the same shape
  IF ~OpDomain(op, L.k, k) THEN Unspecified
  ELSE OkL(OpKind(op, L.k, k), L.sh,
           [i \in 1..Len(L.d) |-> IF refl = 1 THEN OpCell(op, k, L.k, d[i], L.d[i])
                                  ELSE OpCell(op, L.k, k, L.d[i], d[i])], L.lab)

-----------------------------------------------------------------------------
(* C07: binary functions with fills.  one/two are <<>> for 'ignore' or a   *)
(* single cell.                                                            *)

BinFuncKind(f, k1, k2) ==
  CASE f \in Arith -> OpKind(f, k1, k2)
    [] f = "divide" -> OpKind("div", k1, k2)
    [] f = "max" -> HiKind(k1, k2)
    [] f = "wsub" -> OpKind("add", HiKind(k1, k2), "i")
BinFuncCell(f, k1, k2, x, y) ==
  CASE f \in Arith -> OpCell(f, k1, k2, x, y)
    [] f = "divide" -> OpCell("div", k1, k2, x, y)
    [] f = "max" -> IF IsNaN(x) \/ IsNaN(y) THEN NaN
                    ELSE IF HiKind(k1, k2) = "b" THEN Boo(Truth(x) \/ Truth(y))
                    ELSE MaxC(AsNum(x), AsNum(y))
    [] f = "wsub" -> Sub(Mul(IntC(2), AsNum(x)), AsNum(y))   \* 2x - y via kwargs
BinaryOp(f, L, M, js, cast, one, two) ==
  LET o == Align(L, M, js, cast) IN
  IF o.st # "ok" THEN o
  ELSE IF \E a \in 1..Len(js) : js[a] = "skip" THEN Unspecified
  ELSE IF ~(L.k \in NumKinds /\ M.k \in NumKinds) THEN Unspecified
  ELSE LET A == o.v.v[1]  B == o.v.v[2]
           n == Len(A.d)
           cell(i) ==
             LET x == A.d[i]  y == B.d[i]
                 m1 == IsMissing(A.k, x)  m2 == IsMissing(B.k, y)
                 x1 == IF m1 /\ ~m2 /\ one # <<>> THEN one[1]
                       ELSE IF m1 /\ m2 /\ two # <<>> THEN two[1] ELSE x
                 y1 == IF m2 /\ ~m1 /\ one # <<>> THEN one[1]
                       ELSE IF m1 /\ m2 /\ two # <<>> THEN two[1] ELSE y
             IN BinFuncCell(f, A.k, B.k, x1, y1)
       IN OkL(BinFuncKind(f, A.k, B.k), A.sh, [i \in 1..n |-> cell(i)], A.lab)

-----------------------------------------------------------------------------
(* C08: many larrys                                                        *)

AlignAxis(Ls, axs, j) ==
  IF \E i \in 1..Len(Ls) : ~AxisOK(axs[i], ND(Ls[i])) THEN Err
  ELSE IF j \notin {"inner", "outer", "left", "right"} THEN Err
  ELSE LET lab(i) == Ls[i].lab[NormAx(axs[i], ND(Ls[i]))]
           n == Len(Ls)
           common ==
             CASE j = "left" -> lab(1) [] j = "right" -> lab(n)
               [] j = "inner" ->
                  SortSet({x \in SetOf(lab(1)) : \A i \in 2..n : x \in SetOf(lab(i))})
               [] j = "outer" -> SortSet(UNION {SetOf(lab(i)) : i \in 1..n})
       IN OkV([i \in 1..n |-> MorphTo(Ls[i], NormAx(axs[i], ND(Ls[i])), common)])
UnionLab(Ls, ax) ==
  IF \E i \in 1..Len(Ls) : ~AxisOK(ax, ND(Ls[i])) THEN Err
  ELSE OkI(SortSet(UNION {SetOf(Ls[i].lab[NormAx(ax, ND(Ls[i]))]) : i \in 1..Len(Ls)}))
InterLab(Ls, ax) ==
  IF \E i \in 1..Len(Ls) : ~AxisOK(ax, ND(Ls[i])) THEN Err
  ELSE LET lab(i) == SetOf(Ls[i].lab[NormAx(ax, ND(Ls[i]))])
       IN OkI(SortSet({x \in lab(1) : \A i \in 1..Len(Ls) : x \in lab(i)}))
IsAligned(L, M, ax) ==
  IF ax = NoAxis THEN OkI(<<IF L.lab = M.lab THEN 1 ELSE 0>>)
  ELSE IF ~AxisOK(ax, ND(L)) \/ ~AxisOK(ax, ND(M)) THEN Err
  ELSE OkI(<<IF L.lab[NormAx(ax, ND(L))] = M.lab[NormAx(ax, ND(M))] THEN 1 ELSE 0>>)
(* names are sorted with their larrys by the recorder's argument order:    *)
(* e.names are label ids, the result orders them.                          *)
Stack(mode, names, Ls) ==
  IF \E i \in 1..Len(Ls) : ND(Ls[i]) # 2 THEN Err
  ELSE IF mode \notin {"union", "intersection"} THEN Err
  ELSE LET comb(a) == IF mode = "union" THEN UnionLab(Ls, a - 1) ELSE InterLab(Ls, a - 1)
           row == comb(1).v.i  col == comb(2).v.i
           srt == SortInts(names)
           src(z) == CHOOSE i \in 1..Len(names) : names[i] = srt[z]
           page(z) == Cast(Bring(Ls[src(z)], <<row, col>>), "f").d
           per == Len(row) * Len(col)
           pages == [z \in 1..Len(srt) |-> page(z)]
       IN OkL("f", <<Len(srt), Len(row), Len(col)>>,
              [k \in 1..(Len(srt) * per) |->
                 pages[((k - 1) \div per) + 1][((k - 1) % per) + 1]],
              <<srt, row, col>>)

-----------------------------------------------------------------------------
(* C09: merge.  Present means finite for numbers, not '' / None otherwise. *)

Present(k, c) == CASE k = "f" -> IsFin(c) [] k = "S" -> c # EmptyStr
                   [] k = "O" -> c # NoneVal [] OTHER -> TRUE
MergeLabel(l1, l2) == IF l1 = l2 THEN l1 ELSE SortSet(SetOf(l1) \cup SetOf(l2))
Merge(L, M, upd) ==
  IF ND(L) # ND(M) THEN Err
  ELSE IF (L.k \in {"S", "O"} \/ M.k \in {"S", "O"}) /\ L.k # M.k THEN Err
  ELSE LET labs == [a \in 1..ND(L) |-> MergeLabel(L.lab[a], M.lab[a])]
           A == Bring(L, labs)  B == Bring(M, labs)
           n == Len(A.d)
           p1(i) == Present(A.k, A.d[i])  p2(i) == Present(B.k, B.d[i])
           k == IF \E i \in 1..n : p2(i)
                THEN (IF A.k \in {"S", "O"} THEN A.k ELSE HiKind(A.k, B.k)) ELSE A.k
       IN IF upd = 0 /\ (\E i \in 1..n : p1(i) /\ p2(i)) THEN Err
          ELSE OkL(IF n = 0 THEN "?" ELSE k, A.sh,
                   [i \in 1..n |-> IF p2(i) THEN ToKind(B.d[i], k)
                                   ELSE ToKind(A.d[i], k)], labs)

-----------------------------------------------------------------------------
(* C10: positional indexing.  An index is a sequence of per-axis tokens    *)
(*   [y |-> "i", v |-> <<p>>]       integer                                *)
(*   [y |-> "s", v |-> <<a,b,c>>]   slice                                  *)
(*   [y |-> "q", v |-> positions]   list, tuple or integer array           *)
(*   [y |-> "b", v |-> 0/1 flags]   Boolean array                          *)
(*   [y |-> "l", v |-> 0/1 flags, lab |-> labels]  1d Boolean larry        *)
(*   [y |-> "z"]                    anything else (several dimensions, a   *)
(*                                  larry that is not Boolean, None, ...)  *)
(* Axes without a token are taken whole.                                   *)

FlagPos(v) == LET P(p) == v[p + 1] = 1 IN Positions(Len(v), P)
TokBad(t, n, lab) ==
  CASE t.y = "i" -> ~PosOK(t.v[1], n)
    [] t.y = "s" -> FALSE
    [] t.y = "q" -> \/ \E i \in 1..Len(t.v) : ~PosOK(t.v[i], n)
                    \/ ~NoDup([i \in 1..Len(t.v) |-> NormPos(t.v[i], n)])
    [] t.y = "b" -> Len(t.v) # n
    [] t.y = "l" -> t.lab # lab
    [] t.y = "z" -> TRUE
TokPos(t, n) ==
  CASE t.y = "i" -> <<NormPos(t.v[1], n)>>
    [] t.y = "s" -> SliceIdx(n, t.v[1], t.v[2], t.v[3])
    [] t.y = "q" -> [i \in 1..Len(t.v) |-> NormPos(t.v[i], n)]
    [] t.y \in {"b", "l"} -> FlagPos(t.v)
NSeq(ix) == Cardinality({a \in 1..Len(ix) : ix[a].y \in {"q", "b", "l"}})
IndexBad(L, ix) ==
  \/ Len(ix) > ND(L)
  \/ NSeq(ix) > 1
  \/ \E a \in 1..Len(ix) : TokBad(ix[a], L.sh[a], L.lab[a])
IndexSel(L, ix) == [a \in 1..ND(L) |-> IF a <= Len(ix) THEN TokPos(ix[a], L.sh[a])
                                       ELSE Iota(L.sh[a])]
KeptAxes(L, ix) == LET P(a) == a > Len(ix) \/ ix[a].y # "i"
                   IN SelectSeq([a \in 1..ND(L) |-> a], P)
(* the array of selected cells with integer-indexed axes dropped *)
Indexed(L, ix) ==
  LET R == SelAll(L, IndexSel(L, ix))
      kept == KeptAxes(L, ix)
  IN L4(L.k, [i \in 1..Len(kept) |-> R.sh[kept[i]]], R.d,
        [i \in 1..Len(kept) |-> R.lab[kept[i]]])
GetItem(L, ix) ==
  IF IndexBad(L, ix) THEN Err
  ELSE LET R == Indexed(L, ix)
       IN IF Len(R.sh) = 0 THEN OkS(L.k, R.d[1]) ELSE Ok(R)

-----------------------------------------------------------------------------
(* C11: label lookup                                                       *)

Get(L, labs) ==
  IF Len(labs) # ND(L) THEN Err
  ELSE LET p == [a \in 1..ND(L) |-> Lookup(L.lab[a], labs[a])]
       IN IF \E a \in 1..ND(L) : p[a] < 0 THEN Err
          ELSE OkS(L.k, At(L.sh, L.d, p))
LabelIndex(L, name, ax, exact) ==
  IF ax = NoAxis \/ ~AxisOK(ax, ND(L)) THEN Err
  ELSE LET lab == L.lab[NormAx(ax, ND(L))]  p == Lookup(lab, name)
           le == {i \in 1..Len(lab) : lab[i] <= name}
       IN IF p >= 0 THEN OkI(<<p>>)
          ELSE IF exact = 1 \/ le = {} THEN Err
          ELSE OkI(<<Max(le) - 1>>)
GetLabel(L, ax) == IF ~AxisOK(ax, ND(L)) THEN Err ELSE OkI(L.lab[NormAx(ax, ND(L))])
MaxMinLabel(L, ax, ismax) ==
  LET S == IF ax = NoAxis THEN UNION {SetOf(L.lab[a]) : a \in 1..ND(L)}
           ELSE SetOf(L.lab[NormAx(ax, ND(L))])
  IN IF ax # NoAxis /\ ~AxisOK(ax, ND(L)) THEN Err
     ELSE IF S = {} \/ (ax = NoAxis /\ \E a \in 1..ND(L) : L.sh[a] = 0) THEN Err
     ELSE OkI(<<IF ismax = 1 THEN Max(S) ELSE Min(S)>>)

(* lix tokens: [y |-> "n", v |-> labels]; [y |-> "i", v |-> <<p>>];        *)
(* [y |-> "s", v |-> <<a,b,step>>, la |-> 0/1, lb |-> 0/1] where la/lb say *)
(* that start/stop is a label.                                             *)
LixTokBad(t, n, lab) ==
  CASE t.y = "n" -> \/ \E i \in 1..Len(t.v) : Lookup(lab, t.v[i]) < 0
                    \/ ~NoDup(t.v)
    [] t.y = "i" -> ~PosOK(t.v[1], n)
    [] t.y = "s" -> \/ t.la = 1 /\ Lookup(lab, t.v[1]) < 0
                    \/ t.lb = 1 /\ Lookup(lab, t.v[2]) < 0
LixTokPos(t, n, lab) ==
  CASE t.y = "n" -> [i \in 1..Len(t.v) |-> Lookup(lab, t.v[i])]
    [] t.y = "i" -> <<NormPos(t.v[1], n)>>
    [] t.y = "s" -> SliceIdx(n, IF t.la = 1 THEN Lookup(lab, t.v[1]) ELSE t.v[1],
                             IF t.lb = 1 THEN Lookup(lab, t.v[2]) ELSE t.v[2], t.v[3])
LixBad(L, ix) == \/ Len(ix) > ND(L)
                 \/ \E a \in 1..Len(ix) : LixTokBad(ix[a], L.sh[a], L.lab[a])
LixSel(L, ix) == [a \in 1..ND(L) |-> IF a <= Len(ix)
                                     THEN LixTokPos(ix[a], L.sh[a], L.lab[a])
                                     ELSE Iota(L.sh[a])]
(* tup = 1: a tuple index, whose single-element axes are dropped; otherwise
   one bare token, where a single label or position drops axis 1. *)
LixGet(L, ix, tup) ==
  IF \E a \in 1..ND(L) : L.sh[a] = 0
  THEN (IF L.sh = <<0>> THEN Ok(L) ELSE Err)
  ELSE IF LixBad(L, ix) THEN Err
  ELSE LET sel == LixSel(L, ix)  R == SelAll(L, sel) IN
       IF \E a \in 1..ND(L) : Len(sel[a]) = 0
       THEN (IF tup = 0 THEN Ok(R) ELSE Unspecified)
       ELSE LET drop == IF tup = 1 THEN {a \in 1..ND(L) : Len(sel[a]) = 1}
                        ELSE IF ix[1].y = "i" \/ (ix[1].y = "n" /\ Len(ix[1].v) = 1)
                             THEN {1} ELSE {}
                P(a) == a \notin drop
                kept == SelectSeq([a \in 1..ND(L) |-> a], P)
            IN IF Len(kept) = 0 THEN OkS(L.k, R.d[1])
               ELSE OkL(L.k, [i \in 1..Len(kept) |-> R.sh[kept[i]]], R.d,
                        [i \in 1..Len(kept) |-> R.lab[kept[i]]])

-----------------------------------------------------------------------------
(* C12: assignment; the outcome value is the larry afterwards.             *)
(* Value v: [y |-> "s", k, c] scalar, [y |-> "a", sh, d] array of the      *)
(* selection's shape, [y |-> "l", sh, d, lab] larry.                       *)

(* Write the cells of new (flat, in selection order) at the positions of
   the outer selection sel. *)
PutSel(L, sel, new(_)) ==
  LET ssh == [a \in 1..ND(L) |-> Len(sel[a])]
      pos == [j \in 1..Prod(ssh) |->
                LET ix == Unravel(j - 1, ssh)
                IN Ravel([a \in 1..ND(L) |-> sel[a][ix[a] + 1]], L.sh) + 1]
      S == SetOf(pos)
  IN [L EXCEPT !.d = [p \in 1..Len(L.d) |->
        IF p \in S
        THEN ToKind(new(CHOOSE j \in 1..Len(pos) : pos[j] = p), L.k)
        ELSE L.d[p]]]
(* numpy decides about several sequences or repeated positions *)
SetLoose(L, ix) ==
  \/ NSeq(ix) > 1
  \/ Len(ix) > ND(L)
  \/ \E a \in 1..Len(ix) : /\ ix[a].y = "q"
                           /\ \A i \in 1..Len(ix[a].v) : PosOK(ix[a].v[i], L.sh[a])
SetItem(L, ix, v) ==
  IF IndexBad(L, ix) THEN (IF SetLoose(L, ix) THEN Unspecified ELSE Err)
  ELSE LET R == Indexed(L, ix)  sel == IndexSel(L, ix) IN
       CASE v.y = "s" -> Ok(PutSel(L, sel, LAMBDA j : v.c))
         [] v.y = "a" -> IF v.sh # R.sh THEN Unspecified
                         ELSE Ok(PutSel(L, sel, LAMBDA j : v.d[j]))
         [] v.y = "l" -> IF Len(R.sh) = 0 \/ v.lab # R.lab THEN Err
                         ELSE Ok(PutSel(L, sel, LAMBDA j : v.d[j]))
(* Boolean larry of the same ndim as index, scalar value *)
SetMask(L, M, v) ==
  IF M.lab # L.lab THEN Err
  ELSE Ok([L EXCEPT !.d = [p \in 1..Len(L.d) |->
             IF ~Truth(M.d[p]) THEN L.d[p]
           ELSE IF v.y = "a"            \* one value for each cell, in C order
           THEN ToKind(v.d[Cardinality({q \in 1..p : Truth(M.d[q])})], L.k)
           ELSE ToKind(v.c, L.k)]])
SetLabel(L, labs, c) ==
  IF Len(labs) # ND(L) THEN Err
  ELSE LET p == [a \in 1..ND(L) |-> Lookup(L.lab[a], labs[a])]
       IN IF \E a \in 1..ND(L) : p[a] < 0 THEN Err
          ELSE Ok([L EXCEPT !.d[Ravel(p, L.sh) + 1] = ToKind(c, L.k)])
Fill(L, c) == Ok([L EXCEPT !.d = [p \in 1..Len(L.d) |-> ToKind(c, L.k)]])
(* labels given twice *)
LixLoose(L, ix) == \E a \in 1..Len(ix) : ix[a].y = "n" /\ ~NoDup(ix[a].v)
LixSet(L, ix, tup, v) ==
  IF \E a \in 1..ND(L) : L.sh[a] = 0 THEN Err
  ELSE IF LixLoose(L, ix) THEN Unspecified
  ELSE IF LixBad(L, ix) THEN Err
  ELSE IF tup = 1 /\ \E a \in 1..ND(L) : Len(LixSel(L, ix)[a]) = 0 THEN Unspecified
  ELSE LET sel == LixSel(L, ix)
           ssh == [a \in 1..ND(L) |-> Len(sel[a])]
           labs == [a \in 1..ND(L) |->
                     [i \in 1..Len(sel[a]) |-> L.lab[a][sel[a][i] + 1]]]
           one == tup = 0 /\ (ix[1].y = "i" \/ (ix[1].y = "n" /\ Len(ix[1].v) = 1))
           want == IF one THEN DropAt(labs, 1) ELSE labs
       IN CASE v.y = "s" -> Ok(PutSel(L, sel, LAMBDA j : v.c))
            [] v.y = "a" -> IF v.sh # (IF one THEN DropAt(ssh, 1) ELSE ssh) THEN Unspecified
                            ELSE Ok(PutSel(L, sel, LAMBDA j : v.d[j]))
            [] v.y = "l" -> IF want = <<>> \/ v.lab # want THEN Err
                            ELSE Ok(PutSel(L, sel, LAMBDA j : v.d[j]))

-----------------------------------------------------------------------------
(* C15: conversions                                                        *)

(* rows: one per datum, [l |-> labels, c |-> cell] *)
ToRows(L) == [k \in 1..Size(L) |->
                LET ix == Unravel(k - 1, L.sh)
                IN [l |-> [a \in 1..ND(L) |-> L.lab[a][ix[a] + 1]], c |-> L.d[k]]]
(* rows -> larry with sorted axes; absent cells missing *)
FromRows(rows) ==
  IF Len(rows) = 0 THEN EmptyLarry
  ELSE LET nd == Len(rows[1].l)
           labs == [a \in 1..nd |-> SortSet({rows[i].l[a] : i \in 1..Len(rows)})]
           sh == [a \in 1..nd |-> Len(labs[a])]
           cell(ix) == LET S == {i \in 1..Len(rows) :
                                   \A a \in 1..nd : rows[i].l[a] = labs[a][ix[a] + 1]}
                       IN IF S = {} THEN NaN ELSE ToKind(rows[Max(S)].c, "f")
       IN L4("f", sh, Build(sh, cell), labs)
Sorted(L) == SortAxis(L, NoAxis, 0).v
RoundTrip(L) == IF Size(L) = 0 THEN EmptyLarry ELSE Cast(Sorted(L), "f")
RowsOfFlat(L) == [k \in 1..Len(L.d) |-> [l |-> UnTuple(L.lab[1][k]), c |-> L.d[k]]]
UnFlatten(L) == IF ND(L) # 1 THEN Err
                ELSE IF L.sh = <<0>> THEN Ok(EmptyLarry)
                ELSE Ok(FromRows(RowsOfFlat(L)))
=============================================================================
