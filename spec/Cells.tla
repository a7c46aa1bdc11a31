------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* Values that can be stored in a cell of a labelled array.                *)
(*                                                                         *)
(* A cell is a triple of integers <<tag, a, b>>:                           *)
(*   <<0, n, d>>  the rational n/d in lowest terms, d > 0                  *)
(*   <<1, 0, 0>>  NaN                                                      *)
(*   <<2, s, 0>>  infinity with sign s                                     *)
(*   <<3, i, 0>>  string; ids follow the order of the strings, '' is 0     *)
(*   <<4, 0, 0>>  None                                                     *)
(*   <<5, b, 0>>  Boolean                                                  *)
(*   <<8, 0, 0>>  (in expectations only) any value                         *)
(*   <<9, n, t>>  something the recorder could not express: an object if     *)
(*                t = 2, otherwise a finite number                         *)
(*                                                                         *)
(* A dtype kind is one of "f" (float), "i" (int), "b" (bool), "S"          *)
(* (string), "O" (object).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* The rational n/d as a cell; d # 0. *)
Num(n, d) ==
  IF d = 1 THEN <<0, n, 1>>
  ELSE LET g == Gcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN  <<0, (s * n) \div g, (s * d) \div g>>
IntC(n)   == <<0, n, 1>>
NaN      == <<1, 0, 0>>
PInf     == <<2, 1, 0>>
NInf     == <<2, -1, 0>>
EmptyStr == <<3, 0, 0>>
NoneVal  == <<4, 0, 0>>
Boo(b)   == <<5, IF b THEN 1 ELSE 0, 0>>
AnyCell  == <<8, 0, 0>>

IsNum(c)  == c[1] = 0
IsNaN(c)  == c[1] = 1
IsInf(c)  == c[1] = 2
IsFin(c)  == c[1] = 0 \/ c[1] = 5 \/ (c[1] = 9 /\ c[3] # 2)
AsNum(c)  == IF c[1] = 5 THEN <<0, c[2], 1>> ELSE c

(* Truth value of a cell (NaN, inf and non-zero numbers are true). *)
Truth(c) == CASE c[1] = 0 -> c[2] # 0
              [] c[1] = 5 -> c[2] # 0
              [] c[1] = 3 -> c[2] # 0
              [] c[1] = 4 -> FALSE
              [] OTHER    -> TRUE

-----------------------------------------------------------------------------
(* Extended rational arithmetic with IEEE rules for NaN and infinities.    *)

Neg(x) == IF IsNum(x) THEN <<0, -x[2], x[3]>>
          ELSE IF IsInf(x) THEN <<2, -x[2], 0>> ELSE x

Add(x, y) ==
  IF IsNum(x) /\ IsNum(y)
  THEN IF x[3] = 1 /\ y[3] = 1 THEN <<0, x[2] + y[2], 1>>
       ELSE IF x[3] = y[3] THEN Num(x[2] + y[2], x[3])
       ELSE Num(x[2] * y[3] + y[2] * x[3], x[3] * y[3])
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF IsInf(x) /\ IsInf(y) THEN (IF x[2] = y[2] THEN x ELSE NaN)
  ELSE IF IsInf(x) THEN x ELSE y

Sub(x, y) == Add(x, Neg(y))

SignOf(x) == IF IsInf(x) THEN x[2] ELSE Sgn(x[2])

Mul(x, y) ==
  IF IsNum(x) /\ IsNum(y) THEN Num(x[2] * y[2], x[3] * y[3])
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE LET s == SignOf(x) * SignOf(y)
       IN IF s = 0 THEN NaN ELSE <<2, s, 0>>

(* Float division: x/0 is an infinity or NaN; zero is unsigned here. *)
Div(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF IsNum(x) /\ IsNum(y)
  THEN IF y[2] = 0
       THEN (IF x[2] = 0 THEN NaN ELSE <<2, Sgn(x[2]), 0>>)
       ELSE Num(x[2] * y[3], x[3] * y[2])
  ELSE IF IsInf(x) /\ IsInf(y) THEN NaN
  ELSE IF IsInf(x)
       THEN <<2, x[2] * (IF y[2] < 0 THEN -1 ELSE 1), 0>>
       ELSE IntC(0)

FloorN(n, d) == n \div d                    \* d > 0: \div rounds down
Floor(x) == IF IsNum(x) THEN IntC(FloorN(x[2], x[3])) ELSE x
FloorDivF(x, y) == Floor(Div(x, y))
(* Integer floor division; division by zero gives 0. *)
FloorDivI(x, y) ==
  IF y[2] = 0 THEN IntC(0)
  ELSE IF y[2] > 0 THEN IntC(x[2] \div y[2]) ELSE IntC((-x[2]) \div (-y[2]))

(* Three-way comparison of two comparable (non-NaN) cells. *)
Cmp(x, y) ==
  IF x[1] = 0 /\ y[1] = 0
  THEN IF x[3] = y[3] THEN Sgn(x[2] - y[2])
       ELSE Sgn(x[2] * y[3] - y[2] * x[3])
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN Sgn(x[2] - y[2]) ELSE x[2])
  ELSE IF IsInf(y) THEN -y[2]
  ELSE Sgn(x[2] - y[2])                      \* strings

Lt(x, y) == (~IsNaN(x)) /\ (~IsNaN(y)) /\ Cmp(x, y) < 0
Le(x, y) == (~IsNaN(x)) /\ (~IsNaN(y)) /\ Cmp(x, y) <= 0
EqC(x, y) == (~IsNaN(x)) /\ AsNum(x) = AsNum(y)

Compare(op, x0, y0) ==
  LET x == AsNum(x0)  y == AsNum(y0) IN
  CASE op = "==" -> EqC(x, y)
    [] op = "!=" -> ~EqC(x, y)
    [] op = "<"  -> Lt(x, y)
    [] op = "<=" -> Le(x, y)
    [] op = ">"  -> Lt(y, x)
    [] op = ">=" -> Le(y, x)

RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN IntC(1) ELSE Mul(x, PowN(x, n - 1))

-----------------------------------------------------------------------------
(* dtypes and missing values                                               *)

HasMissing(k) == k \in {"f", "S", "O"}
(* The missing marker of a dtype kind that has one. *)
MissingOf(k) == CASE k = "f" -> NaN [] k = "S" -> EmptyStr [] k = "O" -> NoneVal
                  [] OTHER -> NaN
(* The kind that an array gets when a missing value must be stored. *)
FillKind(k) == IF HasMissing(k) THEN k ELSE "f"
(* Convert a cell to a kind (only to "f"/"i"/"b" from numeric kinds). *)
ToKind(c, k) == CASE k = "f" -> AsNum(c)
                  [] k = "i" -> (IF c[1] = 5 THEN AsNum(c)
                                 ELSE IF c[1] = 0
                                      THEN IntC(Sgn(c[2]) * (Abs(c[2]) \div c[3]))
                                      ELSE c)
                  [] k = "b" -> Boo(Truth(c))
                  [] OTHER   -> c
(* A missing cell in an array of kind k (ints and bools have none). *)
IsMissing(k, c) == HasMissing(k) /\ c = MissingOf(k)

(* Sequences of cells *)
SumSeq(s)  == FoldLeft(Add, IntC(0), s)
ProdSeq(s) == FoldLeft(Mul, IntC(1), s)
MaxC(a, b) == IF Cmp(a, b) >= 0 THEN a ELSE b
MinC(a, b) == IF Cmp(a, b) <= 0 THEN a ELSE b
SortCells(s) == SortSeq(s, LAMBDA a, b : Cmp(a, b) < 0)
IsNotNaN(c) == ~IsNaN(c)
NotNaN(s)  == SelectSeq(s, IsNotNaN)

CellEq(e, o) == e = o \/ e[1] = 8
=============================================================================
