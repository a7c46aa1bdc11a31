------------------------------ MODULE NdArray ------------------------------
(***************************************************************************)
(* Arrays in C order: a shape (sequence of naturals) and the flat sequence *)
(* of cells.  Axes are 1-based here; positions along an axis are 0-based.  *)
(***************************************************************************)
EXTENDS Cells

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Sub1(s, i, j) == SubSeq(s, i, j)
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsAt(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
SetAt(s, i, v) == [s EXCEPT ![i] = v]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Iota(n) == [i \in 1..n |-> i - 1]
Const(n, v) == [i \in 1..n |-> v]

(* Python axis argument: NoAxis encodes None. *)
NoAxis == -99
AxisOK(ax, nd) == ax >= -nd /\ ax < nd
NormAx(ax, nd) == IF ax < 0 THEN ax + nd + 1 ELSE ax + 1
Outer(sh, ax) == Prod(SubSeq(sh, 1, ax - 1))
Inner(sh, ax) == Prod(SubSeq(sh, ax + 1, Len(sh)))

(* Multi-index (0-based) of the k-th cell (0-based) and back. *)
RECURSIVE UnravelR(_, _, _)
UnravelR(k, sh, i) ==
  IF i = 0 THEN <<>>
  ELSE Append(UnravelR(k \div sh[i], sh, i - 1), k % sh[i])
Unravel(k, sh) == UnravelR(k, sh, Len(sh))
Ravel(ix, sh) ==
  FoldLeft(LAMBDA acc, i : acc * sh[i] + ix[i], 0, [i \in 1..Len(sh) |-> i])

(* The array of shape sh whose cell at multi-index ix is F(ix). *)
Build(sh, F(_)) == [k \in 1..Prod(sh) |-> F(Unravel(k - 1, sh))]
At(sh, d, ix) == d[Ravel(ix, sh) + 1]

(* Select positions idx along axis ax; -1 stands for the cell `miss`. *)
TakeD(sh, d, ax, idx, miss) ==
  LET n == sh[ax]  m == Len(idx)  inn == Inner(sh, ax)
      tot == Outer(sh, ax) * m * inn
  IN [k0 \in 1..tot |->
        LET k == k0 - 1
            o == k \div (m * inn)
            r == k % (m * inn)
            i == idx[(r \div inn) + 1]
        IN IF i < 0 THEN miss ELSE d[(o * n + i) * inn + (r % inn) + 1]]

(* The lines along axis ax, one per (outer, inner) pair, in C order. *)
NLines(sh, ax) == Outer(sh, ax) * Inner(sh, ax)
Line(sh, d, ax, j) ==                       \* j in 0..NLines-1
  LET inn == Inner(sh, ax)  n == sh[ax]
      o == j \div inn  t == j % inn
  IN [i \in 1..n |-> d[(o * n + i - 1) * inn + t + 1]]

ReduceD(sh, d, ax, F(_)) ==
  [j \in 1..NLines(sh, ax) |-> F(Line(sh, d, ax, j - 1))]

(* Replace every line by F(line), which must have length m. *)
MapLinesD(sh, d, ax, m, F(_)) ==
  LET inn == Inner(sh, ax)
      new == [j \in 1..NLines(sh, ax) |-> F(Line(sh, d, ax, j - 1))]
  IN [k0 \in 1..(Outer(sh, ax) * m * inn) |->
        LET k == k0 - 1
            o == k \div (m * inn)
            r == k % (m * inn)
        IN new[o * inn + (r % inn) + 1][(r \div inn) + 1]]

(* Permute axes: axis i of the result is axis p[i] of the input. *)
PermuteD(sh, d, p) ==
  LET nsh == [i \in 1..Len(sh) |-> sh[p[i]]]
  IN Build(nsh, LAMBDA ix :
        At(sh, d, [a \in 1..Len(sh) |->
                     ix[CHOOSE i \in 1..Len(sh) : p[i] = a]]))
PermuteSh(sh, p) == [i \in 1..Len(sh) |-> sh[p[i]]]

(* Outer selection: positions sel[a] on every axis a. *)
RECURSIVE TakeAllD(_, _, _, _)
TakeAllD(sh, d, sel, ax) ==
  IF ax > Len(sh) THEN d
  ELSE TakeAllD(SetAt(sh, ax, Len(sel[ax])),
                TakeD(sh, d, ax, sel[ax], NaN), sel, ax + 1)

(* F-order flattening *)
RavelF(sh, d) ==
  LET rsh == Rev(sh) IN Build(rsh, LAMBDA ix : At(sh, d, Rev(ix)))

(* slice(start, stop, step) on an axis of length n; NoAxis encodes None.
   Gives the 0-based positions, as slice.indices does. *)
SliceIdx(n, st, sp, step0) ==
  LET step == IF step0 = NoAxis THEN 1 ELSE step0
      lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      clip(v) == LET w == IF v < 0 THEN v + n ELSE v
                 IN IF w < lo THEN lo ELSE IF w > hi THEN hi ELSE w
      a == IF st = NoAxis THEN (IF step > 0 THEN lo ELSE hi) ELSE clip(st)
      b == IF sp = NoAxis THEN (IF step > 0 THEN hi ELSE lo) ELSE clip(sp)
      cnt == IF step > 0 THEN (IF b > a THEN (b - a - 1) \div step + 1 ELSE 0)
             ELSE (IF a > b THEN (a - b - 1) \div (-step) + 1 ELSE 0)
  IN [i \in 1..cnt |-> a + (i - 1) * step]
=============================================================================
