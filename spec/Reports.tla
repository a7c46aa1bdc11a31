------------------------------ MODULE Reports -------------------------------
(***************************************************************************)
(* What la shows and loads: the printed archive, its use of space, and the *)
(* quotes that are put together from downloaded tables.                    *)
(***************************************************************************)
EXTENDS Calc

(* The printed archive: a line per larry, in the order of the keys, with   *)
(* its dtype and shape.  x are the larrys, keys[i] is the key of x[i].     *)
Table(x, keys) ==
  [i \in 1..Len(keys) |->
     LET k == SortInts(keys)[i]
         L == x[CHOOSE j \in 1..Len(keys) : keys[j] = k]
     IN [key |-> k, dt |-> L.dt, sh |-> L.sh]]

(* fsize: size of the file; stored: what its datasets occupy.              *)
Space(fsize, stored) == OkI(<<fsize, fsize - stored>>)

(* Quotes: one table per ticker.  The first line of a table is its heading *)
(* and lines without seven fields are left out.  The columns are open,     *)
(* high, low, close, volume, adjusted close; the items of a larry are      *)
(* open, close, high, low, volume, adjusted close.                         *)
Columns == <<1, 4, 2, 3, 5, 6>>
Rows7(t) == SelectSeq(IF t.lines = <<>> THEN <<>> ELSE Tail(t.lines), LAMBDA l : l.nf = 7)
TableBad(t) == LET r == Rows7(t) IN
  \/ r = <<>>
  \/ \E i \in 1..Len(r) : r[i].ok = 0
  \/ ~NoDup([i \in 1..Len(r) |-> r[i].date])
OneTable(t, items) ==
  LET r == Rows7(t)  n == Len(r) IN
  L4("f", <<1, 6, n>>,
     [c \in 1..6 * n |-> r[((c - 1) % n) + 1].v[Columns[((c - 1) \div n) + 1]]],
     <<<<t.tick>>, items, [i \in 1..n |-> r[i].date]>>)
RECURSIVE AllTables(_, _, _)
AllTables(tabs, items, m) ==
  IF m = 1 THEN Ok(OneTable(tabs[1], items))
  ELSE LET s == AllTables(tabs, items, m - 1) IN
       IF s.st # "ok" THEN s ELSE Merge(s.v, OneTable(tabs[m], items), 0)
(* prices are scaled so that the close becomes the adjusted close *)
AdjustQuotes(L) ==
  LET n == L.sh[3]
      at(t, i, j) == L.d[((t - 1) * 6 + i - 1) * n + j]
      cell(c) == LET t == ((c - 1) \div (5 * n)) + 1
                     i == (((c - 1) \div n) % 5) + 1
                     j == ((c - 1) % n) + 1
                     scale == Div(at(t, 6, j), at(t, 2, j))
                 IN CASE i = 2 -> at(t, 6, j)
                      [] i = 5 -> at(t, 5, j)
                      [] OTHER -> Mul(at(t, i, j), scale)
  IN L4("f", <<L.sh[1], 5, n>>, [c \in 1..L.sh[1] * 5 * n |-> cell(c)],
        <<L.lab[1], SubSeq(L.lab[2], 1, 5), L.lab[3]>>)
Quotes(tabs, items, adjust) ==
  IF tabs = <<>> \/ \E i \in 1..Len(tabs) : TableBad(tabs[i]) THEN Err
  ELSE LET s == AllTables(tabs, items, Len(tabs)) IN
       IF s.st # "ok" THEN Err
       ELSE LET L == SortAxis(s.v, 2, 0).v
            IN Ok(IF adjust = 1 THEN AdjustQuotes(L) ELSE L)

(* The table is asked for with months counted from 0.                      *)
AskedFor(t, d1, d2, u) ==
  /\ u.sym = t.up
  /\ u.q = <<d1[2] - 1, d1[3], d1[1], d2[2] - 1, d2[3], d2[1]>>
=============================================================================
