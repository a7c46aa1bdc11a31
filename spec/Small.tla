------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* All calls with small operands.  For the property in PROP this module    *)
(*   - enumerates every call whose operands and arguments are in the sets  *)
(*     below,                                                              *)
(*   - checks laws: the statements of the properties, said about the set   *)
(*     of facts (label tuple, cell) of a larry and independent of the      *)
(*     definitions in Larry and Calc, must hold of the outcome that the    *)
(*     specification gives every one of these calls,                       *)
(*   - writes the calls to the file CALLS, for the harness to replay each  *)
(*     of them on the real code (Trace judges the outcomes).               *)
(* The tier decides how large "small" is.                                  *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

Prop == IOEnv.PROP
Deep == IOEnv.TIER = "thorough"

-----------------------------------------------------------------------------
(* Operands *)

Inj(S, n) == {s \in [1..n -> S] : NoDup(s)}
UpTo(S, n) == UNION {Inj(S, m) : m \in 0..n}
ShapeOf(labs) == [a \in 1..Len(labs) |-> Len(labs[a])]
Lar(k, labs, C) == LET sh == ShapeOf(labs)
                   IN {L4(k, sh, d, labs) : d \in [1..Prod(sh) -> C]}
(* distinct cells: every cell can be told from every other *)
Dist(labs) == LET sh == ShapeOf(labs)
              IN L4("f", sh, [i \in 1..Prod(sh) |-> IntC(i)], labs)
L1(k, S, lo, hi, C) == UNION {Lar(k, <<l>>, C) : l \in UNION {Inj(S, n) : n \in lo..hi}}
Plain(k, n, C) == Lar(k, <<Iota(n)>>, C)             \* labels 0..n-1
Fl(n) == {NaN} \cup {IntC(i) : i \in 1..n}
Labs2 == {<<a, b>> : a \in UpTo({0, 1}, 2), b \in UpTo({0, 1}, 2)}
Some2 == {<<a, b>> : a \in {<<>>, <<1>>, <<1, 0>>}, b \in {<<>>, <<0>>, <<0, 2>>}}
Labs3 == {<<a, b, c>> : a \in {<<0>>, <<1, 0>>}, b \in {<<>>, <<2>>, <<0, 1>>},
                        c \in {<<1>>, <<2, 0>>}}
D1 == {Dist(<<l>>) : l \in UpTo({0, 1, 2}, 3)}
D2 == {Dist(l) : l \in Labs2}
D2s == {Dist(l) : l \in Some2}
D3 == {Dist(l) : l \in Labs3}
DD == D1 \cup D2 \cup D3
(* 2d with every pattern of missing cells *)
P2 == UNION {Lar("f", <<<<1, 0>>, l>>, {NaN, IntC(2)}) : l \in {<<0, 1>>, <<2, 0, 1>>}}
Kinds == {"f", "i", "b", "S", "O"}
CellsOf(k) == CASE k = "f" -> Fl(1) [] k = "i" -> {IntC(0), IntC(1)}
                [] k = "b" -> {Boo(TRUE), Boo(FALSE)}
                [] k = "S" -> {EmptyStr, <<3, 1, 0>>}
                [] k = "O" -> {NoneVal, <<3, 1, 0>>}
AnyKind(S, hi) == UNION {L1(k, S, 0, hi, CellsOf(k)) : k \in Kinds}
Ax(nd) == (-(nd + 1))..nd
AxN(nd) == Ax(nd) \cup {NoAxis}

-----------------------------------------------------------------------------
(* Calls: sequences of records, so that records of several forms can be    *)
(* put together.                                                           *)

Sq(S) == SetToSeq(S)
C02(z) ==
  Sq(UNION {{[op |-> "sortaxis", x |-> <<L>>, ax |-> a, rev |-> r] :
               a \in AxN(ND(L)), r \in 0..1} : L \in DD}) \o
  Sq(UNION {{[op |-> "flipaxis", x |-> <<L>>, ax |-> a, copy |-> c] :
               a \in AxN(ND(L)), c \in 0..1} : L \in DD}) \o
  Sq({[op |-> o, x |-> <<L>>] : o \in {"T", "squeeze", "panel"}, L \in DD}) \o
  Sq(UNION {{[op |-> "swapaxes", x |-> <<L>>, ax |-> a, ax2 |-> b] :
               a \in Ax(ND(L)), b \in Ax(ND(L))} : L \in DD}) \o
  Sq(UNION {{[op |-> "insertaxis", x |-> <<L>>, ax |-> a, label |-> 5] :
               a \in (-(ND(L) + 1))..ND(L)} : L \in DD}) \o
  Sq(UNION {{[op |-> "take", x |-> <<L>>, ax |-> a, idx |-> i] :
               a \in Ax(ND(L)), i \in UNION {[1..n -> -3..2] : n \in 0..2}} :
            L \in {Dist(<<<<2, 0, 1>>>>), Dist(<<<<1, 0>>, <<0, 2, 1>>>>)}}) \o
  Sq({[op |-> "flatten", x |-> <<L>>, order |-> o] : o \in {"C", "F", "K"}, L \in DD})
C03(z) ==
  Sq(UNION {{[op |-> "morph", x |-> <<L>>, label |-> l, ax |-> a] :
               l \in UpTo({0, 1, 2, 3}, IF Deep THEN 3 ELSE 2), a \in {-2, -1, 0, 1}} :
            L \in AnyKind({0, 1, 2}, 2)}) \o
  Sq(UNION {{[op |-> "morph", x |-> <<L>>, label |-> l, ax |-> a] :
               l \in UpTo({0, 1, 2}, 3), a \in Ax(ND(L))} :
            L \in D2s \cup D3}) \o
  Sq({[op |-> "morph_like", x |-> <<L, M>>] : L \in D1 \cup D2s, M \in D1 \cup D2s})
C04(z) ==
  Sq(UNION {{[op |-> "keep_label", x |-> <<L>>, cmp |-> c, v |-> v, ax |-> a] :
               c \in {"==", "!=", ">", "<", ">=", "<="}, v \in {<<0>>, <<1>>, <<3>>},
               a \in AxN(ND(L))} : L \in D1 \cup D2s}) \o
  Sq(UNION {{[op |-> "keep_label", x |-> <<L>>, cmp |-> c, v |-> v, ax |-> a] :
               c \in {"in", "not in", "is"}, v \in UpTo({0, 1, 3}, 2), a \in AxN(ND(L))} :
            L \in D1 \cup D2s}) \o
  Sq({[op |-> "keep_x", x |-> <<L>>, cmp |-> c, c |-> IntC(v), vac |-> b] :
        c \in {"==", "!=", ">", "<", ">=", "<="}, v \in 0..3, b \in 0..1,
        L \in D2s \cup P2}) \o
  Sq(UNION {{[op |-> "vacuum", x |-> <<L>>, axs |-> a] :
               a \in {<<>>, <<0>>, <<-1>>, <<1>>, <<0, 1>>, <<2>>}} :
            L \in P2 \cup D2s \cup Plain("f", 3, {NaN, IntC(1), PInf})}) \o
  Sq(UNION {{[op |-> "cut_missing", x |-> <<L>>, fn |-> f[1], fd |-> f[2], ax |-> a] :
               f \in {<<0, 1>>, <<1, 2>>, <<1, 4>>, <<1, 1>>}, a \in {NoAxis, 0, 1, -1, 2}} :
            L \in P2 \cup Plain("f", 3, {NaN, IntC(1), PInf})}) \o
  Sq(UNION {{[op |-> "pull", x |-> <<L>>, name |-> l, ax |-> a] :
               l \in 0..3, a \in AxN(ND(L))} : L \in DD}) \o
  Sq(UNION {{[op |-> "lag", x |-> <<L>>, nlag |-> n, ax |-> a] :
               n \in (-3)..3, a \in Ax(ND(L))} : L \in DD}) \o
  Sq(UNION {{[op |-> "sortby", x |-> <<L>>, name |-> l, ax |-> a, rev |-> r] :
               l \in 0..2, a \in {-3, -2, -1, 0, 1, 2}, r \in 0..1} : L \in P2 \cup D2})
Small1 == L1("f", {0, 1, 2}, 0, 2, {IntC(1)})
Holes1 == L1("f", {0, 1, 2}, 0, 2, Fl(1))
Ints1 == L1("i", {0, 1, 2}, 0, 2, {IntC(2)})
C05(z) ==
  Sq({[op |-> o, x |-> <<L, M>>, js |-> <<j>>, cast |-> c] :
        o \in {"align", "align_raw"}, L \in Small1 \cup Ints1, M \in Small1 \cup Ints1,
        j \in Joins \cup {"all"}, c \in 0..1}) \o
  Sq({[op |-> "align", x |-> <<L, M>>, js |-> j, cast |-> 1] :
        L \in D2s, M \in {Dist(l) : l \in {<<<<0, 1>>, <<2>>>>, <<<<1, 0>>, <<>>>>, <<<<2>>, <<2, 0>>>>}},
        j \in {<<j1, j2>> : j1 \in Joins, j2 \in Joins}}) \o
  Sq({[op |-> "align", x |-> <<L, M>>, js |-> <<"inner", "outer">>, cast |-> 1] :
        L \in D1, M \in D2s})
C06(z) ==
  Sq({[op |-> "op_ll", x |-> <<L, M>>, f |-> f] :
        f \in Arith \cup Comps \cup (IF Deep THEN Logic ELSE {}),
        L \in L1("f", {0, 1}, 0, 2, {NaN, IntC(1), IntC(-2)}),
        M \in L1("f", {0, 1}, 1, 2, {NaN, IntC(3)}) \cup Small1}) \o
  Sq({[op |-> "op_ll", x |-> <<L, M>>, f |-> f] :
        f \in {"add", "==", "div"}, L \in D2, M \in D2s}) \o
  Sq({[op |-> "op_ls", x |-> <<L>>, f |-> f, k |-> "f", c |-> c, refl |-> r] :
        f \in Arith \cup Comps, c \in {NaN, IntC(2), Num(1, 2), PInf}, r \in 0..1,
        L \in Plain("f", 2, {NaN, IntC(0), IntC(-3), NInf})})
C07(z) ==
  Sq({[op |-> "binaryop", x |-> <<L, M>>, f |-> f, js |-> <<j>>, cast |-> c,
       one |-> o, two |-> t] :
        f \in {"add", "sub"}, L \in L1("f", {0, 1}, 0, 2, Fl(1)),
        M \in L1("f", {0, 1}, 1, 2, {NaN, IntC(3)}),
        j \in {"inner", "outer", "left", "right"}, c \in {1},
        o \in {<<>>, <<IntC(5)>>}, t \in {<<>>, <<IntC(7)>>}})
C08(z) ==
  Sq({[op |-> o, x |-> <<L, M, N>>, ax |-> a] :
        o \in {"union", "intersection"}, a \in {-1, 0, 1},
        L \in D1, M \in {Dist(<<l>>) : l \in UpTo({0, 3}, 2)}, N \in {Dist(<<<<1, 0>>>>)}}) \o
  Sq({[op |-> "align_axis", x |-> <<L, M>>, axs |-> <<a, b>>, j |-> j] :
        L \in D2s \cup {Dist(<<<<1, 2>>>>)}, M \in D2s, a \in {-2, -1, 0, 1}, b \in {-1, 0, 1, 2},
        j \in {"inner", "outer", "left", "right", "all"}}) \o
  Sq({[op |-> "isaligned", x |-> <<L, M>>, ax |-> a] :
        L \in D2, M \in D2s, a \in {NoAxis, -3, -2, -1, 0, 1, 2}}) \o
  Sq({[op |-> "stack", x |-> <<L, M>>, mode |-> m, names |-> n] :
        L \in D2s, M \in D2s, m \in {"union", "intersection", "x"}, n \in {<<1, 0>>, <<0, 2>>}})
C09(z) ==
  Sq({[op |-> "merge", x |-> <<L, M>>, upd |-> u] : u \in 0..1,
        L \in Holes1, M \in L1("f", {0, 1, 2}, 0, 2, {NaN, IntC(3), PInf})}) \o
  Sq({[op |-> "merge", x |-> <<L, M>>, upd |-> u] : u \in 0..1,
        L \in AnyKind({0, 1}, 2), M \in AnyKind({0, 1}, 1)}) \o
  Sq({[op |-> "merge", x |-> <<L, M>>, upd |-> u] : u \in 0..1, L \in P2, M \in D2s})
None0(S) == S \cup {NoAxis}
Slices(n, steps) == {[y |-> "s", v |-> <<a, b, s>>] :
                       a \in None0((-n - 1)..(n + 1)), b \in None0((-n - 1)..(n + 1)),
                       s \in steps}
Ints(n) == {[y |-> "i", v |-> <<i>>] : i \in (-n - 1)..n}
SeqToks(n) == {[y |-> "q", v |-> s] : s \in UNION {[1..m -> (-n)..(n - 1)] : m \in 0..2} \cup {<<n>>}}
Flags(n) == {[y |-> "b", v |-> s] : s \in [1..n -> 0..1]}
Toks(n) == Slices(n, {NoAxis, 1, 2, -1, -2}) \cup Ints(n) \cup SeqToks(n) \cup Flags(n)
FewToks(n) == Ints(n) \cup {[y |-> "s", v |-> <<a, b, s>>] : a \in {NoAxis, 1, -1}, b \in {NoAxis, 1},
                                                            s \in {NoAxis, -1}}
                \cup {[y |-> "q", v |-> s] : s \in {<<>>, <<0>>, <<1, 0>>, <<-1, 0>>, <<0, 0>>, <<n>>}}
                \cup Flags(n)
X3 == Dist(<<<<1, 2, 0>>>>)
X23 == Dist(<<<<1, 0>>, <<0, 2, 1>>>>)
X212 == Dist(<<<<1, 0>>, <<2>>, <<0, 2>>>>)
Indexes ==
  {<<X3, <<t>>>> : t \in Toks(3)} \cup
  {<<X23, <<t>>>> : t \in FewToks(2)} \cup
  {<<X23, <<t, u>>>> : t \in FewToks(2), u \in FewToks(3)} \cup
  {<<X212, <<t, u, v>>>> : t \in {[y |-> "i", v |-> <<-1>>], [y |-> "s", v |-> <<NoAxis, NoAxis, -1>>],
                                  [y |-> "q", v |-> <<1, 0>>]},
                           u \in {[y |-> "i", v |-> <<0>>], [y |-> "s", v |-> <<NoAxis, NoAxis, NoAxis>>],
                                  [y |-> "q", v |-> <<0>>], [y |-> "b", v |-> <<1>>]},
                           v \in {[y |-> "i", v |-> <<1>>], [y |-> "s", v |-> <<1, NoAxis, NoAxis>>],
                                  [y |-> "q", v |-> <<-1, 0>>], [y |-> "b", v |-> <<0, 1>>]}}
(* flags with labels *)
FlagToks(lab) == {[y |-> "l", v |-> v, lab |-> l] : v \in [1..Len(lab) -> 0..1],
                                                   l \in {lab, Rev(lab)}}
C10(z) == Sq({[op |-> "getitem", x |-> <<i[1]>>, ix |-> i[2]] : i \in Indexes}) \o
  Sq({[op |-> "getitem", x |-> <<X3>>, ix |-> <<t>>] : t \in FlagToks(X3.lab[1])}) \o
  Sq({[op |-> "getitem", x |-> <<X23>>, ix |-> <<t, u>>] :
        t \in FlagToks(X23.lab[1]), u \in FewToks(3) \cup FlagToks(X23.lab[2])}) \o
  Sq({[op |-> "getitem", x |-> <<X23>>, ix |-> <<t, u>>] :
        t \in FewToks(2), u \in FlagToks(X23.lab[2])})
NameToks == {[y |-> "n", v |-> s] : s \in UNION {[1..m -> 0..2] : m \in 1..2}}
LixSlices(n) == {[y |-> "s", v |-> <<a, b, s>>, la |-> p, lb |-> q] :
                   a \in {0, 1, 2}, b \in {0, 1, 2}, s \in {NoAxis, 1, -1}, p \in 0..1, q \in 0..1}
(* where one array or larry of new cells can be put, and these *)
Places == {i \in Indexes : /\ ~IndexBad(i[1], i[2]) /\ Len(i[2]) < 3
                           /\ Deep \/ NSeq(i[2]) = 0 \/ ND(i[1]) = 1
                           /\ Len(KeptAxes(i[1], i[2])) > 0}
NewCells(L, ix) ==
  LET R == Indexed(L, ix)
      d == [i \in 1..Size(R) |-> IntC(90 + i)]
      other == {[R.lab EXCEPT ![a] = IF Len(@) > 1 THEN Rev(@) ELSE [i \in 1..Len(@) |-> 5]] :
                  a \in 1..ND(R)}
  IN {[y |-> "a", k |-> "f", sh |-> R.sh, d |-> d]} \cup
     {[y |-> "l", k |-> "f", sh |-> R.sh, d |-> d, lab |-> l] : l \in {R.lab} \cup other}
Masked == {X3, X23} \cup D2s \cup {Dist(<<l>>) : l \in UpTo({0, 1}, 2)}
Turned(L) == {L4("b", L.sh, [p \in 1..Size(L) |-> Boo(TRUE)],
                 [L.lab EXCEPT ![a] = IF Len(@) > 1 THEN Rev(@) ELSE [j \in 1..Len(@) |-> 5]]) :
                a \in {b \in 1..ND(L) : L.sh[b] > 0}}
Cells1(M) == Cardinality({i \in 1..Len(M.d) : Truth(M.d[i])})
C12(z) == Sq({[op |-> "setitem", x |-> <<i[1]>>, ix |-> i[2],
            v |-> [y |-> "s", k |-> "i", c |-> IntC(99)]] : i \in Indexes}) \o
       Sq(UNION {{[op |-> "set", x |-> <<L>>, labs |-> l, c |-> IntC(99)] :
                    l \in UNION {[1..n -> 0..2] : n \in 0..2}} : L \in D1 \cup D2s}) \o
       Sq({[op |-> "fill", x |-> <<L>>, c |-> IntC(99)] : L \in DD}) \o
       \* arrays of the selection's shape, and larrys whose labels fit or do not
       Sq(UNION {{[op |-> "setitem", x |-> <<i[1]>>, ix |-> i[2], v |-> v] :
                    v \in NewCells(i[1], i[2])} : i \in Places}) \o
       \* the cells where a larry of flags with the same labels is true
       Sq(UNION {{[op |-> "setmask", x |-> <<L, M>>, v |-> v] :
                    M \in Lar("b", L.lab, CellsOf("b")) \cup Turned(L),
                    v \in {[y |-> "s", k |-> "i", c |-> IntC(99)]}} : L \in Masked}) \o
       Sq(UNION {{[op |-> "setmask", x |-> <<L, M>>,
                   v |-> [y |-> "a", k |-> "f", d |-> [i \in 1..Cells1(M) |-> IntC(90 + i)]]] :
                    M \in {F \in Lar("b", L.lab, CellsOf("b")) : Cells1(F) > 0}} :
                 L \in Masked}) \o
       Sq({[op |-> "lixset", x |-> <<X3>>, ix |-> <<t>>, tup |-> 0,
            v |-> [y |-> "s", k |-> "i", c |-> IntC(99)]] :
             t \in NameToks \cup LixSlices(3) \cup Ints(3)}) \o
       Sq({[op |-> "lixset", x |-> <<X23>>, ix |-> <<t, u>>, tup |-> 1,
            v |-> [y |-> "s", k |-> "i", c |-> IntC(99)]] :
             t \in NameToks \cup Ints(2), u \in NameToks \cup Ints(3) \cup LixSlices(3)})
C11(z) ==
  Sq(UNION {{[op |-> "labelindex", x |-> <<L>>, name |-> l, ax |-> a, exact |-> e] :
               l \in 0..3, a \in AxN(ND(L)), e \in 0..1} : L \in D1 \cup D2s}) \o
  Sq(UNION {{[op |-> "get", x |-> <<L>>, labs |-> l] :
               l \in UNION {[1..n -> 0..2] : n \in 0..3}} : L \in DD}) \o
  Sq(UNION {{[op |-> o, x |-> <<L>>, ax |-> a] : a \in AxN(ND(L)),
               o \in {"maxlabel", "minlabel"}} : L \in DD}) \o
  Sq(UNION {{[op |-> "getlabel", x |-> <<L>>, ax |-> a, copy |-> c] : a \in Ax(ND(L)),
               c \in 0..1} : L \in DD}) \o
  Sq({[op |-> "lix", x |-> <<X3>>, ix |-> <<t>>, tup |-> p] :
        t \in NameToks \cup LixSlices(3) \cup Ints(3), p \in {0}}) \o
  Sq({[op |-> "lix", x |-> <<X23>>, ix |-> <<t, u>>, tup |-> 1] :
        t \in NameToks \cup Ints(2), u \in NameToks \cup Ints(3) \cup LixSlices(3)})
C14(z) == Sq({[op |-> "listmap", x |-> <<>>, l1 |-> a, l2 |-> b, ignore |-> g] :
             a \in UpTo({0, 1, 2, 3}, 3), b \in UNION {[1..n -> 0..3] : n \in 0..3}, g \in 0..1}) \o
       Sq({[op |-> "listmap_fill", x |-> <<>>, l1 |-> a, l2 |-> b, fill |-> 9] :
             a \in UpTo({0, 1, 2, 3}, 3), b \in UNION {[1..n -> 0..3] : n \in 0..3}}) \o
       Sq({[op |-> "flattenlabel", x |-> <<>>, labs |-> l, order |-> o] : o \in {"C", "F"},
             l \in UNION {[1..n -> {<<0>>, <<1, 0>>, <<0, 2, 1>>}] : n \in 1..3}})
C15(z) == Sq({[op |-> "roundtrip", x |-> <<L>>, way |-> w] :
             w \in {"tuples", "list", "dict"}, L \in DD \cup P2 \cup Holes1})
Wild == {NaN, IntC(-1), IntC(2), PInf}
Calm == {NaN, IntC(-1), IntC(2), IntC(3)}
C16(z) ==
  Sq({[op |-> "reduce", x |-> <<L>>, f |-> f, ax |-> a, ddof |-> 0] :
        f \in {"sum", "prod", "mean", "median", "max", "min", "any", "all"},
        a \in {NoAxis, -2, -1, 0, 1},
        L \in UNION {Plain("f", n, Wild) : n \in 0..(IF Deep THEN 5 ELSE 3)}}) \o
  Sq({[op |-> "reduce", x |-> <<L>>, f |-> f, ax |-> a, ddof |-> 0] :
        f \in {"sum", "prod", "mean", "median", "max", "min", "var", "std", "any", "all"},
        a \in {NoAxis, -3, -2, -1, 0, 1, 2}, L \in P2 \cup D2}) \o
  Sq({[op |-> "reduce", x |-> <<L>>, f |-> f, ax |-> a, ddof |-> d] :
        f \in {"var", "std"}, a \in {NoAxis, 0}, d \in 0..1,
        L \in UNION {Plain("f", n, Calm) : n \in 1..4}})
C17(z) ==
  Sq({[op |-> "pred", x |-> <<L>>, f |-> f] : f \in {"ismissing", "isnan", "isinf", "isfinite"},
        L \in UNION {Plain("f", n, {NaN, PInf, NInf, IntC(0), IntC(1)}) : n \in 0..3}}) \o
  Sq({[op |-> "pred", x |-> <<L>>, f |-> "ismissing"] : L \in AnyKind({0, 1}, 2)}) \o
  Sq({[op |-> "nx", x |-> <<L>>] : L \in UNION {Plain("f", n, {NaN, PInf, NInf, IntC(0)}) : n \in 0..3}}) \o
  Sq({[op |-> "nan_replace", x |-> <<L>>, c |-> c] : c \in {IntC(0), IntC(7)},
        L \in UNION {Plain("f", n, {NaN, PInf, IntC(0)}) : n \in 0..3} \cup P2}) \o
  Sq({[op |-> "push", x |-> <<L>>, w |-> w, ax |-> a] : w \in 0..4, a \in {-1, 0},
        L \in UNION {Plain("f", n, {NaN, IntC(1), IntC(2)}) : n \in 1..(IF Deep THEN 6 ELSE 5)}}) \o
  Sq({[op |-> "push", x |-> <<L>>, w |-> w, ax |-> a] : w \in 0..2, a \in {-3, -2, -1, 0, 1, 2}, L \in P2})
C18(z) ==
  Sq({[op |-> "unary", x |-> <<L>>, f |-> f] : f \in {"neg", "pos", "abs", "sign"},
        L \in UNION {Plain("f", n, Wild \cup {IntC(0)}) : n \in 0..3}}) \o
  Sq({[op |-> "unary", x |-> <<L>>, f |-> f] : f \in {"neg", "pos", "abs", "sign"},
        L \in UNION {Plain("i", n, {IntC(-2), IntC(0), IntC(1)}) : n \in 0..3}}) \o
  Sq({[op |-> "unary", x |-> <<L>>, f |-> "invert"] :
        L \in UNION {Plain(k, 2, CellsOf(k)) : k \in {"b", "i", "f"}} \cup D2s}) \o
  Sq({[op |-> "power", x |-> <<L>>, q |-> q] : q \in 0..3,
        L \in UNION {Plain("f", n, Wild \cup {IntC(0)}) : n \in 0..2}}) \o
  Sq({[op |-> "clip", x |-> <<L>>, lo |-> IntC(a), hi |-> IntC(b)] : a \in -2..2, b \in -2..2,
        L \in Plain("f", 2, Wild \cup {IntC(0), NInf})}) \o
  Sq({[op |-> "astype", x |-> <<L>>, k |-> k] : k \in {"f", "i", "b"},
        L \in Plain("f", 2, {IntC(0), IntC(-1), Num(5, 2)}) \cup Plain("i", 2, {IntC(0), IntC(3)})
              \cup Plain("b", 2, CellsOf("b"))}) \o
  Sq({[op |-> "cum", x |-> <<L>>, f |-> f, ax |-> a] : f \in {"cumsum", "cumprod"},
        a \in {NoAxis, -2, -1, 0, 1},
        L \in UNION {Plain("f", n, Wild) : n \in 0..(IF Deep THEN 5 ELSE 4)}}) \o
  Sq({[op |-> "cum", x |-> <<L>>, f |-> f, ax |-> a] : f \in {"cumsum", "cumprod"},
        a \in {-3, -2, -1, 0, 1, 2}, L \in P2 \cup D2}) \o
  Sq(UNION {{[op |-> "maplabel", x |-> <<L>>, fm |-> [i \in 1..3 |-> <<i - 1, m[i]>>], ax |-> a,
              copy |-> c] : m \in Inj(0..3, 3), a \in AxN(ND(L)), c \in 0..1} :
            L \in {X3, Dist(<<<<0>>>>)} \cup D2s})
Moved == UNION {Plain("f", n, {NaN, IntC(-1), IntC(2)}) : n \in 1..(IF Deep THEN 5 ELSE 4)}
C19(z) ==
  Sq({[op |-> "move", x |-> <<L>>, f |-> f, w |-> w, ax |-> a, par |-> 0] :
        f \in {"sum", "mean", "min", "max", "std", "median", "ranking"}, w \in 0..5,
        a \in {-1, 0}, L \in Moved}) \o
  Sq({[op |-> "move", x |-> <<L>>, f |-> f, w |-> w, ax |-> a, par |-> 1] :
        f \in {"first", "wsum"}, w \in 0..3, a \in {-3, -2, -1, 0, 1, 2},
        L \in P2 \cup {Dist(<<Iota(n), Iota(m)>>) : n \in 1..3, m \in 1..3}}) \o
  Sq({[op |-> "move", x |-> <<L>>, f |-> f, w |-> w, ax |-> a, par |-> 0] :
        f \in {"sum", "mean", "min", "max", "median", "ranking"}, w \in 1..3,
        a \in {-2, -1, 0, 1}, L \in P2}) \o
  Sq({[op |-> "movingsum", x |-> <<L>>, w |-> w, skip |-> s, ax |-> a, norm |-> n, back |-> b] :
        w \in 1..4, s \in 0..2, a \in {-1, 0}, n \in 0..1, b \in 0..1,
        L \in UNION {Plain("f", n2, {NaN, IntC(-1), IntC(2)}) : n2 \in 1..3}})
Ranked == UNION {Plain("f", n, Fl(3)) : n \in 1..(IF Deep THEN 5 ELSE 4)}
C20(z) ==
  Sq({[op |-> "ranking", x |-> <<L>>, ax |-> a, norm |-> m] : a \in {NoAxis, -2, -1, 0, 1},
        m \in Norms \cup {"0,1"}, L \in Ranked}) \o
  Sq({[op |-> "ranking", x |-> <<L>>, ax |-> a, norm |-> m] : a \in {NoAxis, -3, -2, -1, 0, 1, 2},
        m \in Norms, L \in P2 \cup (D2 \ {D \in D2 : Size(D) = 0})}) \o
  Sq({[op |-> "lastrank", x |-> <<L>>, ax |-> a, m |-> m] : a \in {-2, -1, 0}, m \in -1..2,
        L \in UNION {Plain("f", n, Fl(2)) : n \in 1..4}}) \o
  Sq({[op |-> "lastrank", x |-> <<L>>, ax |-> a, m |-> m] : a \in {-3, -2, -1, 0, 1, 2}, m \in 0..1,
        L \in P2 \cup D2}) \o
  Sq({[op |-> "quantile", x |-> <<L>>, q |-> q, ax |-> a] : q \in -1..5, a \in {NoAxis, -1, 0},
        L \in UNION {{L4("f", <<n>>, s, <<Iota(n)>>) : s \in Inj({NaN, IntC(1), IntC(2), IntC(3), IntC(5)}, n)}
                     : n \in 1..4}})
C21(z) ==
  Sq({[op |-> "normalize", x |-> <<L>>, f |-> f, ax |-> a] :
        f \in {"demean", "demedian", "zscore"}, a \in {NoAxis, -2, -1, 0, 1},
        L \in UNION {Plain("f", n, Calm) : n \in 1..(IF Deep THEN 5 ELSE 4)}}) \o
  Sq({[op |-> "normalize", x |-> <<L>>, f |-> f, ax |-> a] :
        f \in {"demean", "demedian", "zscore"}, a \in {NoAxis, -3, -2, -1, 0, 1, 2},
        L \in P2 \cup (D2 \ {D \in D2 : Size(D) = 0})})
C22(z) ==
  Sq({[op |-> "group", x |-> <<L, G>>, f |-> f, ax |-> a, norm |-> "-1,1"] :
        f \in {"group_mean", "group_median", "group_ranking"}, a \in {-1, 0},
        L \in Plain("f", 3, Fl(2)),
        G \in {L4("S", <<3>>, d, <<l>>) : d \in [1..3 -> {<<3, 1, 0>>, <<3, 2, 0>>}],
                                         l \in {<<0, 1, 2>>, <<2, 0, 1>>}}}) \o
  Sq({[op |-> "group", x |-> <<L, G>>, f |-> f, ax |-> a, norm |-> "-1,1"] :
        f \in {"group_mean", "group_median", "group_ranking"}, a \in {-3, -2, -1, 0, 1, 2},
        L \in IF Deep THEN P2 ELSE Lar("f", <<<<1, 0>>, <<0, 1>>>>, {NaN, IntC(2)}),
        G \in {L4("i", <<2>>, d, <<l>>) : d \in [1..2 -> {IntC(0), IntC(1)}],
                                                  l \in {<<0, 1>>, <<1, 0>>, <<1, 2>>}}
                        \cup {L4("f", <<4>>, d, <<<<3, 2, 1, 0>>>>) :
                                d \in [1..4 -> {NaN, IntC(1)}]}})
C23(z) ==
  Sq({[op |-> "cv", x |-> <<>>, n |-> n, kf |-> k, known |-> 1] : n \in 0..9, k \in 0..10}) \o
  Sq({[op |-> "split", x |-> <<L>>, tr |-> t, te |-> u, ax |-> a] :
        t \in UNION {Inj(0..2, n) : n \in 0..2}, u \in UNION {Inj(0..2, n) : n \in 0..3},
        a \in {-2, -1, 0, 1, 2}, L \in {X3, X23}})
C24(z) ==
  Sq(UNION {{[op |-> o, x |-> <<L>>, ax |-> a] : a \in AxN(ND(L)),
               o \in {"shuffle", "shufflelabel"}} : L \in DD})
Cells4 == [1..4 -> Fl(2)]
C25(z) ==
  Sq({[op |-> "cov", x |-> <<L>>] : L \in P2}) \o
  Sq({[op |-> "cov", x |-> <<L>>] :
        L \in Lar("f", <<<<1, 0>>, <<0, 1, 2>>>>, {NaN, IntC(-1), IntC(2)})}) \o
  Sq({[op |-> "correlation", x |-> <<L4("f", <<3>>, d, <<<<0, 1, 2>>>>), L4("f", <<3>>, g, <<<<0, 1, 2>>>>)>>,
       ax |-> a] :
        d \in [1..3 -> Fl(2)], g \in [1..3 -> Fl(2)], a \in {NoAxis, 0, -1}}) \o
  Sq({[op |-> "correlation", x |-> <<L, M>>, ax |-> a] :
        L \in Lar("f", <<<<1, 0>>, <<0, 1>>>>, Fl(2)),
        M \in Lar("f", <<<<1, 0>>, <<0, 1>>>>, Fl(1)), a \in {-2, -1, 0, 1}})

(* arrays and label lists to put together: fitting and not *)
Arrays == {L4("f", sh, [i \in 1..Prod(sh) |-> IntC(i)], <<>>) :
             sh \in {<<>>} \cup {<<n>> : n \in 0..3} \cup {<<n, m>> : n \in 0..2, m \in 0..2}}
Lists(n, S) == {[list |-> 1, v |-> v] : v \in UNION {[1..m -> S] : m \in 0..n}}
Given == {<<>>} \cup {<<l>> : l \in Lists(3, 0..2)} \cup
         {<<l, m>> : l \in Lists(2, 0..1), m \in Lists(2, 0..1)} \cup
         {<<l, m, n>> : l \in Lists(1, {0}), m \in Lists(1, {0}), n \in Lists(1, {0})}
NoLists == {[l EXCEPT ![a].list = 0] : l \in {g \in Given : Len(g) > 0}, a \in {1}} \cup
           {[l EXCEPT ![2].list = 0] : l \in {g \in Given : Len(g) > 1}}
C01(z) ==
  Sq({[op |-> "construct", x |-> <<A>>, haslab |-> 1, lab |-> l, range |-> <<>>] :
        A \in Arrays, l \in Given \cup NoLists}) \o
  Sq({[op |-> "construct", x |-> <<A>>, haslab |-> 0, lab |-> <<>>,
       range |-> [a \in 1..Len(A.sh) |-> Iota(A.sh[a])]] : A \in Arrays})
(* shapes and labels for a new larry *)
Wanted ==
  {[sh |-> <<>>, hassh |-> 0, lab |-> <<>>, haslab |-> 0, range |-> <<>>]} \cup
  {[sh |-> sh, hassh |-> 1, lab |-> <<>>, haslab |-> 0,
    range |-> [a \in 1..Len(sh) |-> Iota(sh[a])]] :
     sh \in {<<n>> : n \in 0..4} \cup {<<n, m>> : n \in 0..3, m \in 0..3}
            \cup {<<2, n, 2>> : n \in 0..2}} \cup
  {[sh |-> IF h = 1 THEN [a \in 1..Len(l) |-> Len(l[a])] ELSE <<>>, hassh |-> h,
    lab |-> l, haslab |-> 1, range |-> <<>>] : h \in 0..1,
     l \in {<<l1>> : l1 \in UNION {[1..m -> 0..2] : m \in 0..3}} \cup
           {<<l1, l2>> : l1 \in UNION {[1..m -> 0..1] : m \in 0..2},
                         l2 \in UNION {[1..m -> 0..1] : m \in 0..2}}}
With(S, T) == {s @@ t : s \in S, t \in T}
C26(z) ==
  Sq(With({[op |-> "lrange", x |-> <<>>, k |-> k, start |-> IntC(a), step |-> IntC(b)] :
             k \in {"i", "f"}, a \in {-2, 0, 3}, b \in {-2, -1, 1, 3}}, Wanted)) \o
  Sq(With({[op |-> "lrange", x |-> <<>>, k |-> "f", start |-> Num(1, 2), step |-> Num(a, 4)] :
             a \in {-1, 1, 6}}, Wanted)) \o
  Sq(With({[op |-> "const", x |-> <<>>, k |-> "f", c |-> IntC(i)] : i \in 0..1} \cup
          {[op |-> "const", x |-> <<>>, k |-> "i", c |-> IntC(i)] : i \in 0..1} \cup
          {[op |-> "const", x |-> <<>>, k |-> "b", c |-> Boo(i = 1)] : i \in 0..1} \cup
          {[op |-> "empty", x |-> <<>>, k |-> k] : k \in {"f", "i", "b"}}, Wanted))
(* the type of the cells, as the comparison sees it *)
Typed(S) == {[dt |-> L.k] @@ L : L \in S}
Compared == Typed(L1("f", {0, 1}, 0, 2, {NaN, IntC(0), IntC(1)}) \cup
                  L1("i", {0, 1}, 0, 2, {IntC(0), IntC(1)}) \cup
                  L1("b", {0, 1}, 0, 1, CellsOf("b")) \cup
                  {Dist(l) : l \in {<<<<0>>, <<1>>>>, <<<<1>>, <<0>>>>, <<<<0, 1>>, <<0>>>>,
                                    <<<<0>>, <<0, 1>>>>, <<<<1, 0>>, <<0, 1>>>>,
                                    <<<<0, 1>>, <<1, 0>>>>}} \cup
                  Lar("f", <<<<0, 1>>, <<0, 1>>>>, {NaN, IntC(1)}))
C32(z) ==
  Sq({[op |-> "assert_equal", x |-> <<L, M>>, kinds |-> 1, dtype |-> d, iscopy |-> -1,
       shd |-> 0, shl |-> <<>>] : L \in Compared, M \in Compared, d \in 0..1}) \o
  Sq(UNION {{[op |-> "assert_equal", x |-> <<L, L>>, kinds |-> 1, dtype |-> 1, iscopy |-> i,
              shd |-> d, shl |-> s] : i \in 0..1, d \in 0..1, s \in [1..ND(L) -> 0..1]} :
            L \in {M \in Compared \cup Typed(D3) : Size(M) > 0}})
C33(z) ==
  Sq({[op |-> "unique", x |-> <<L>>, ri |-> i, rv |-> j] : i \in 0..1, j \in 0..1,
        L \in UNION {Plain("f", n, {IntC(1), IntC(-2), IntC(3)}) : n \in 0..(IF Deep THEN 6 ELSE 5)}
              \cup UNION {Plain("i", n, {IntC(1), IntC(-2)}) : n \in 0..4}
              \cup UNION {Plain("b", n, CellsOf("b")) : n \in 0..4}
              \cup UNION {Plain("S", n, {EmptyStr, <<3, 1, 0>>, <<3, 2, 0>>}) : n \in 0..4}
              \cup Lar("f", <<<<1, 0>>, <<0, 2, 1>>>>, {IntC(1), IntC(-2)})})

Calls == CASE Prop = "C01" -> C01(0) [] Prop = "C26" -> C26(0) [] Prop = "C32" -> C32(0)
           [] Prop = "C33" -> C33(0) [] Prop = "C02" -> C02(0) [] Prop = "C03" -> C03(0) [] Prop = "C04" -> C04(0)
           [] Prop = "C05" -> C05(0) [] Prop = "C06" -> C06(0) [] Prop = "C07" -> C07(0)
           [] Prop = "C08" -> C08(0) [] Prop = "C09" -> C09(0) [] Prop = "C10" -> C10(0)
           [] Prop = "C11" -> C11(0) [] Prop = "C12" -> C12(0) [] Prop = "C14" -> C14(0)
           [] Prop = "C15" -> C15(0) [] Prop = "C16" -> C16(0) [] Prop = "C17" -> C17(0)
           [] Prop = "C18" -> C18(0) [] Prop = "C19" -> C19(0) [] Prop = "C20" -> C20(0)
           [] Prop = "C21" -> C21(0) [] Prop = "C22" -> C22(0) [] Prop = "C23" -> C23(0)
           [] Prop = "C24" -> C24(0) [] Prop = "C25" -> C25(0)

-----------------------------------------------------------------------------
(* Laws.  e is a call, R the value of its outcome.                         *)

LabelsAt(L, ix) == [a \in 1..ND(L) |-> L.lab[a][ix[a] + 1]]
Facts(L) == {<<LabelsAt(L, Unravel(k - 1, L.sh)), L.d[k]>> : k \in 1..Len(L.d)}
Names(L) == {f[1] : f \in Facts(L)}
CellAt(L, t) == (CHOOSE f \in Facts(L) : f[1] = t)[2]
Where(L, a, l) == {f \in Facts(L) : f[1][a] = l}     \* the slice under label l
Axis(e) == NormAx(e.ax, ND(e.x[1]))
Sorted1(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
SameSet(s, t) == SetOf(s) = SetOf(t) /\ Len(s) = Len(t)
MissFor(k) == CASE k = "S" -> EmptyStr [] k = "O" -> NoneVal [] OTHER -> NaN
Floats(c) == IF c[1] = 5 THEN <<0, c[2], 1>> ELSE c
(* the cells of a line, by position *)
Cells(L) == L.d
Good(c) == c[1] # 1

LawReorder(e, L, R) ==
  CASE e.op = "sortaxis" ->
         /\ Facts(R) = Facts(L)
         /\ \A a \in 1..ND(L) :
              IF e.ax = NoAxis \/ a = Axis(e)
              THEN Sorted1(IF e.rev = 1 THEN Rev(R.lab[a]) ELSE R.lab[a])
              ELSE R.lab[a] = L.lab[a]
    [] e.op = "flipaxis" ->
         /\ Facts(R) = Facts(L)
         /\ \A a \in 1..ND(L) : R.lab[a] = IF e.ax = NoAxis \/ a = Axis(e)
                                           THEN Rev(L.lab[a]) ELSE L.lab[a]
         /\ FlipAxis(R, e.ax).v = L
    [] e.op = "T" -> Facts(R) = {<<Rev(f[1]), f[2]>> : f \in Facts(L)} /\ Transpose(R).v = L
    [] e.op = "swapaxes" ->
         /\ SwapAxes(R, e.ax2, e.ax).v = L
         /\ ND(R) = ND(L)
         /\ Facts(R) = {<<[f[1] EXCEPT ![NormAx(e.ax, ND(L))] = f[1][NormAx(e.ax2, ND(L))],
                                       ![NormAx(e.ax2, ND(L))] = f[1][NormAx(e.ax, ND(L))]], f[2]>> :
                        f \in Facts(L)}
    [] e.op = "insertaxis" ->
         /\ {f[2] : f \in Facts(R)} = {f[2] : f \in Facts(L)}
         /\ \E a \in 1..ND(R) : /\ R.lab[a] = <<e.label>>
                                /\ \A f \in Facts(R) : <<DropAt(f[1], a), f[2]>> \in Facts(L)
    [] e.op = "squeeze" ->
         /\ \A a \in 1..ND(R) : R.sh[a] # 1
         /\ {f[2] : f \in Facts(R)} = {f[2] : f \in Facts(L)}
         /\ \A f \in Facts(R) : \E g \in Facts(L) :
              f[2] = g[2] /\ f[1] = LET P(i) == L.sh[i] # 1
                                        keep == SelectSeq([i \in 1..ND(L) |-> i], P)
                                    IN [i \in 1..Len(keep) |-> g[1][keep[i]]]
    [] e.op = "take" ->
         /\ Facts(R) = UNION {Where(L, Axis(e), L.lab[Axis(e)][NormPos(e.idx[i], L.sh[Axis(e)]) + 1]) :
                              i \in 1..Len(e.idx)}
         /\ R.lab[Axis(e)] = [i \in 1..Len(e.idx) |->
                                L.lab[Axis(e)][NormPos(e.idx[i], L.sh[Axis(e)]) + 1]]
    [] e.op = "flatten" ->
         /\ Facts(R) = {<<<<TupleCode(f[1])>>, f[2]>> : f \in Facts(L)}
         /\ e.order = "C" => R.d = L.d
         /\ e.order = "F" => R.d = Transpose(L).v.d
         /\ Size(L) > 0 => UnFlatten(R) = Ok(Sorted(L))
    [] e.op = "panel" ->
         Facts(R) = {<<<<TupleCode(<<f[1][2], f[1][3]>>), f[1][1]>>, f[2]>> : f \in Facts(L)}

LawMorph(e, L, R) ==
  LET target == IF e.op = "morph" THEN [L.lab EXCEPT ![Axis(e)] = e.label] ELSE e.x[2].lab IN
  /\ R.lab = target
  /\ \A f \in Facts(R) :
       IF f[1] \in Names(L) THEN f[2] \in {CellAt(L, f[1]), Floats(CellAt(L, f[1]))}
       ELSE f[2] = MissFor(L.k)
  /\ (\A f \in Facts(R) : f[1] \in Names(L)) => R.k \in {L.k, "?"}

LawSelect(e, L, R) ==
  CASE e.op = "keep_label" ->
         LET holds(l) == CASE e.cmp = "==" -> l = e.v[1] [] e.cmp = "!=" -> l # e.v[1]
                           [] e.cmp = ">" -> l > e.v[1] [] e.cmp = "<" -> l < e.v[1]
                           [] e.cmp = ">=" -> l >= e.v[1] [] e.cmp = "<=" -> l <= e.v[1]
                           [] e.cmp = "in" -> l \in SetOf(e.v)
                           [] OTHER -> l \notin SetOf(e.v)
         IN Facts(R) = {f \in Facts(L) : holds(f[1][Axis(e)])}
    [] e.op = "keep_x" ->
         /\ \A f \in Facts(R) : f \in Facts(L) \/ (f[2] = NaN /\ f[1] \in Names(L))
         /\ \A f \in Facts(L) : Compare(e.cmp, f[2], e.c) =>
              f \in Facts(R) \/ (e.vac = 1 /\ f[2] = NaN)
         /\ \A f \in Facts(R) : Good(f[2]) => Compare(e.cmp, f[2], e.c)
         /\ e.vac = 1 => \A a \in 1..2 : \A l \in SetOf(R.lab[a]) :
              \E f \in Where(R, a, l) : IsFin(f[2])
    [] e.op = "vacuum" ->
         /\ Facts(R) \subseteq Facts(L)
         /\ {f \in Facts(L) : IsFin(f[2])} \subseteq Facts(R)
         /\ \A a \in 1..ND(L) :
              IF \E i \in 1..Len(e.axs) : NormAx(e.axs[i], ND(L)) = a
              THEN R.lab[a] = L.lab[a]
              ELSE \A l \in SetOf(R.lab[a]) : \E f \in Where(L, a, l) : IsFin(f[2])
    [] e.op = "cut_missing" ->
         /\ Facts(R) \subseteq Facts(L)
         /\ \A f \in Facts(L) \ Facts(R) :
              Size(R) = 0 \/ \E a \in 1..ND(L) :
                /\ e.ax = NoAxis \/ a # Axis(e)
                /\ LET w == Where(L, a, f[1][a])
                   IN Cardinality({g \in w : IsFin(g[2])}) * e.fd
                        <= (e.fd - e.fn) * Cardinality(w)
    [] e.op = "pull" ->
         IF ND(L) = 1 THEN <<<<e.name>>, R.c>> \in Facts(L)
         ELSE Facts(R) = {<<DropAt(f[1], Axis(e)), f[2]>> : f \in Where(L, Axis(e), e.name)}
    [] e.op = "lag" ->
         LET a == Axis(e)  l == L.lab[a]
             at(x) == CHOOSE i \in 1..Len(l) : l[i] = x
             has(x) == at(x) - e.nlag \in 1..Len(l)
         IN Facts(R) = {<<t, CellAt(L, [t EXCEPT ![a] = l[at(@) - e.nlag]])>> :
                          t \in {z \in Names(L) : has(z[a])}}
    [] e.op = "sortby" -> TRUE

LawAlign(e, L, R) ==
  LET M == e.x[2]  A == R.v[1]  B == R.v[2] IN
  e.op # "align_raw" =>
  /\ \A a \in 1..ND(L) :
       /\ e.js[a] # "skip" => A.lab[a] = B.lab[a]
       /\ SetOf(A.lab[a]) = CASE e.js[a] = "inner" -> SetOf(L.lab[a]) \cap SetOf(M.lab[a])
                              [] e.js[a] = "outer" -> SetOf(L.lab[a]) \cup SetOf(M.lab[a])
                              [] e.js[a] \in {"left", "skip"} -> SetOf(L.lab[a])
                              [] e.js[a] = "right" -> SetOf(M.lab[a])
       /\ e.js[a] = "skip" => A.lab[a] = L.lab[a] /\ B.lab[a] = M.lab[a]
       /\ e.js[a] = "left" => A.lab[a] = L.lab[a]
       /\ e.js[a] = "right" => B.lab[a] = M.lab[a]
  /\ \A f \in Facts(A) : IF f[1] \in Names(L) THEN f \in Facts(L) ELSE f[2] = MissFor(L.k)
  /\ \A f \in Facts(B) : IF f[1] \in Names(M) THEN f \in Facts(M) ELSE f[2] = MissFor(M.k)
  /\ Align(A, B, e.js, e.cast) = OkV(<<A, B>>)
  /\ (\A a \in 1..ND(L) : e.js[a] \in {"inner", "outer"}) =>
       Align(M, L, e.js, e.cast) = OkV(<<B, A>>)

Mirror(f) == CASE f = "add" -> "add" [] f = "mul" -> "mul" [] f = "==" -> "==" [] f = "!=" -> "!="
               [] f = "<" -> ">" [] f = ">" -> "<" [] f = "<=" -> ">=" [] f = ">=" -> "<="
               [] f \in {"and", "or"} -> f [] OTHER -> ""
LawOp(e, L, R) ==
  IF e.op = "op_ls" THEN Names(R) = Names(L) /\ R.lab = L.lab
  ELSE LET M == e.x[2] IN
  /\ Names(R) = Names(L) \cap Names(M)
  /\ \A a \in 1..ND(L) : SetOf(R.lab[a]) = SetOf(L.lab[a]) \cap SetOf(M.lab[a])
  /\ \A f \in Facts(R) : f[2] = OpCell(e.f, L.k, M.k, CellAt(L, f[1]), CellAt(M, f[1]))
  /\ Mirror(e.f) # "" => OpLL(Mirror(e.f), M, L) = Ok(R)
  /\ e.f = "sub" => OpLL("add", L, OpLS("mul", M, "f", IntC(-1), 0).v) = Ok(R)
LawBin(e, L, R) ==
  LET M == e.x[2]
      al == Align(L, M, e.js, 1).v.v
      none(X, t) == \/ t \notin Names(X) \/ IsNaN(CellAt(X, t))
      val(X, t, other) == IF ~none(X, t) THEN CellAt(X, t)
                          ELSE IF ~none(other, t) THEN (IF e.one = <<>> THEN NaN ELSE e.one[1])
                          ELSE (IF e.two = <<>> THEN NaN ELSE e.two[1])
  IN /\ Names(R) = Names(al[1])
     /\ \A f \in Facts(R) :
          f[2] = IF e.f = "add" THEN Add(val(L, f[1], M), val(M, f[1], L))
                 ELSE Sub(val(L, f[1], M), val(M, f[1], L))
     /\ e.js = <<"inner">> /\ e.one = <<>> /\ e.two = <<>> => OpLL(e.f, L, M) = Ok(R)

LawMany(e, L, R) ==
  CASE e.op \in {"union", "intersection"} ->
         /\ Sorted1(R.i)
         /\ \A l \in 0..5 : l \in SetOf(R.i) <=>
              IF e.op = "union" THEN \E i \in 1..Len(e.x) : l \in SetOf(e.x[i].lab[NormAx(e.ax, ND(e.x[i]))])
              ELSE \A i \in 1..Len(e.x) : l \in SetOf(e.x[i].lab[NormAx(e.ax, ND(e.x[i]))])
    [] e.op = "align_axis" ->
         LET ax(i) == NormAx(e.axs[i], ND(e.x[i])) IN
         /\ \A i \in 1..Len(e.x) :
              /\ R.v[i].lab[ax(i)] = R.v[1].lab[ax(1)]
              /\ \A a \in 1..ND(e.x[i]) : a # ax(i) => R.v[i].lab[a] = e.x[i].lab[a]
              /\ \A f \in Facts(R.v[i]) :
                   IF f[1] \in Names(e.x[i]) THEN f \in Facts(e.x[i]) ELSE f[2] = NaN
         /\ e.j = "left" => R.v[1].lab = L.lab
    [] e.op = "isaligned" ->
         R.i = <<1>> <=> IF e.ax = NoAxis THEN L.lab = e.x[2].lab
                         ELSE GetLabel(L, e.ax) = GetLabel(e.x[2], e.ax)
    [] e.op = "stack" ->
         /\ Sorted1(R.lab[1]) /\ Sorted1(R.lab[2]) /\ Sorted1(R.lab[3])
         /\ \A i \in 1..Len(e.x) : \A f \in Where(R, 1, e.names[i]) :
              f[2] = IF Tail(f[1]) \in Names(e.x[i]) THEN CellAt(e.x[i], Tail(f[1])) ELSE NaN
         /\ Cardinality(Names(R)) = Size(R) /\ SetOf(R.lab[1]) = SetOf(e.names)

Have(X) == {f \in Facts(X) : IF X.k \in NumKinds THEN IsFin(f[2]) ELSE f[2] # MissFor(X.k)}
LawMerge(e, L, R) ==
  LET M == e.x[2]  num(S) == {<<f[1], Floats(f[2])>> : f \in S}
      mine == {f \in Have(L) : f[1] \notin {g[1] : g \in Have(M)}}
  IN /\ \A a \in 1..ND(L) : SetOf(R.lab[a]) = SetOf(L.lab[a]) \cup SetOf(M.lab[a])
     /\ num(Have(R)) = num(Have(M) \cup mine)
     /\ e.upd = 0 => Have(L) = mine
     \* merging the same again changes nothing
     /\ Size(R) > 0 => Merge(R, M, 1) = Ok(R)

LawIndex(e, L, R) ==
  \* an integer drops its axis, so put it back
  LET kept == KeptAxes(L, e.ix)
      sel == IndexSel(L, e.ix)
      back(t) == [a \in 1..ND(L) |->
                    IF \E i \in 1..Len(kept) : kept[i] = a
                    THEN t[CHOOSE i \in 1..Len(kept) : kept[i] = a]
                    ELSE L.lab[a][sel[a][1] + 1]]
  IN IF R.t = "S" THEN <<back(<<>>), R.c>> \in Facts(L)
     ELSE /\ {<<back(f[1]), f[2]>> : f \in Facts(R)} \subseteq Facts(L)
          /\ Len(e.ix) = 1 /\ e.ix[1].y = "s" =>
               \* the labels come at equal distances
               LET st == IF e.ix[1].v[3] = NoAxis THEN 1 ELSE e.ix[1].v[3] IN
               \A i \in 2..Len(R.lab[1]) :
                 Lookup(L.lab[1], R.lab[1][i]) - Lookup(L.lab[1], R.lab[1][i - 1]) = st
          /\ \A a \in 1..Len(e.ix) : e.ix[a].y \in {"b", "l"} =>
               Len(sel[a]) = Len(SelectSeq(e.ix[a].v, LAMBDA z : z = 1))
LawAssign(e, L, R) ==
  /\ R.lab = L.lab /\ R.k = L.k
  /\ CASE e.op = "fill" -> \A f \in Facts(R) : f[2] = e.c
       [] e.op = "set" -> \A f \in Facts(R) : IF f[1] = e.labs THEN f[2] = e.c ELSE f \in Facts(L)
       [] e.op = "setmask" ->
            LET put == {f \in Facts(R) : f \notin Facts(L)} IN
            /\ {f[1] : f \in put} = {f[1] : f \in {g \in Facts(e.x[2]) : Truth(g[2])}}
            /\ IF e.v.y = "s" THEN \A f \in put : f[2] = e.v.c
               ELSE LET P(c) == IntC(90) # c /\ Lt(IntC(90), c)
                    IN SelectSeq(R.d, P) = e.v.d
       [] e.op = "lixset" ->
            LET S == LixGet(R, e.ix, e.tup)  was == LixGet(L, e.ix, e.tup)
                n == IF was.v.t = "S" THEN 1 ELSE Size(was.v)
            IN /\ S.v.t = "S" => S.v.c = e.v.c
               /\ S.v.t = "L" => \A i \in 1..Len(S.v.d) : S.v.d[i] = e.v.c
               /\ Cardinality(Facts(R) \cap Facts(L)) = Size(L) - n
       [] e.op = "setitem" /\ e.v.y # "s" ->
            LET S == GetItem(R, e.ix).v IN
            /\ S.d = e.v.d
            /\ e.v.y = "l" => S = L4("f", e.v.sh, e.v.d, e.v.lab)
            /\ Cardinality(Facts(R) \cap Facts(L)) = Size(L) - Size(S)
       [] e.op = "setitem" ->
            LET S == GetItem(R, e.ix).v
                was == GetItem(L, e.ix).v
                n == IF was.t = "S" THEN 1 ELSE Size(was)
            IN /\ IF S.t = "S" THEN S.c = e.v.c ELSE \A i \in 1..Len(S.d) : S.d[i] = e.v.c
               /\ Cardinality(Facts(R) \cap Facts(L)) = Size(L) - n
LawLookup(e, L, R) ==
  CASE e.op = "labelindex" ->
         LET l == L.lab[Axis(e)]  p == R.i[1] + 1 IN
         \/ l[p] = e.name
         \/ e.exact = 0 /\ l[p] < e.name
            /\ \A i \in 1..Len(l) : l[i] # e.name
    [] e.op = "get" -> <<e.labs, R.c>> \in Facts(L)
    [] e.op = "maxlabel" -> \A a \in 1..ND(L) : e.ax = NoAxis \/ a = Axis(e) =>
                              \A i \in 1..L.sh[a] : L.lab[a][i] <= R.i[1]
    [] e.op = "minlabel" -> \A a \in 1..ND(L) : e.ax = NoAxis \/ a = Axis(e) =>
                              \A i \in 1..L.sh[a] : L.lab[a][i] >= R.i[1]
    [] e.op = "getlabel" -> Morph(L, R.i, e.ax) = Ok(L)
    [] e.op = "lix" ->
         IF R.t = "S" THEN \E f \in Facts(L) : f[2] = R.c
         ELSE /\ {f[2] : f \in Facts(R)} \subseteq {f[2] : f \in Facts(L)}
              \* names select exactly the slices under them
              /\ Len(e.ix) = 1 /\ e.ix[1].y = "n" =>
                   {f[2] : f \in Facts(R)} = {f[2] : f \in {g \in Facts(L) : g[1][1] \in SetOf(e.ix[1].v)}}
LawMap(e, R) ==
  CASE e.op = "listmap" ->
         IF e.ignore = 0
         THEN /\ Len(R.i) = Len(e.l2)
              /\ \A i \in 1..Len(R.i) : e.l1[R.i[i] + 1] = e.l2[i]
         ELSE LET P(z) == z \in SetOf(e.l1)
                  known == SelectSeq(e.l2, P)
              IN [i \in 1..Len(R.i) |-> e.l1[R.i[i] + 1]] = known
    [] e.op = "listmap_fill" ->
         \* the positions, and where there are none
         /\ \A i \in 1..Len(e.l2) :
              IF e.l2[i] \in SetOf(e.l1) THEN e.l1[R.v[1].i[i] + 1] = e.l2[i]
              ELSE R.v[1].i[i] = e.fill
         /\ Sorted1(R.v[2].i)
         /\ SetOf(R.v[2].i) = {i - 1 : i \in {j \in 1..Len(e.l2) : e.l2[j] \notin SetOf(e.l1)}}
    [] e.op = "flattenlabel" ->
         LET L == Dist(e.labs) IN
         Flatten(L, e.order).v.lab = <<R.v[1].i>>
LawTrip(e, L, R) == Size(L) > 0 => /\ Facts(R) = {<<f[1], Floats(f[2])>> : f \in Facts(L)}
                                  /\ \A a \in 1..ND(R) : Sorted1(R.lab[a])

Total(s, f) == Reduce(L4("f", <<Len(s)>>, s, <<Iota(Len(s))>>), f, NoAxis, 0).v.c
LawReduce(e, L, R) ==
  LET some == \E i \in 1..Len(L.d) : Good(L.d[i])
      finite == \A i \in 1..Len(L.d) : ~IsInf(L.d[i])
      v == Valid(L.d)
  IN \* the order of the cells does not matter, nor do missing ones
     /\ e.ax = NoAxis =>
          /\ Total(Rev(L.d), e.f) = Total(L.d, e.f)
          /\ e.f \in {"sum", "prod", "mean", "median", "max", "min"} /\ Size(L) > 0 =>
               Total(Append(L.d, NaN), e.f) = R.c
     /\ e.ax = NoAxis /\ Size(L) > 0 =>
        CASE e.f \in {"max", "min"} -> IF some THEN R.c \in SetOf(v) ELSE R.c = NaN
          [] e.f = "median" ->
               IF ~some THEN R.c = NaN
               ELSE \/ IsNaN(R.c)       \* infinities of both signs
                    \/ /\ 2 * Len(SelectSeq(v, LAMBDA z : Lt(z, R.c))) <= Len(v)
                       /\ 2 * Len(SelectSeq(v, LAMBDA z : Lt(R.c, z))) <= Len(v)
          [] e.f = "mean" -> some /\ finite => Mul(R.c, Cnt(v)) = Total(L.d, "sum")
          [] e.f \in {"var", "std"} /\ e.ddof = 0 ->
               IF v = <<>> THEN IsNaN(R.c)
               ELSE R.c = Sub(MeanOf([i \in 1..Len(v) |-> Mul(v[i], v[i])]), Mul(MeanOf(v), MeanOf(v)))
          [] OTHER -> TRUE
     \* a slice at a time, then the slices
     /\ e.ax # NoAxis /\ ND(L) = 2 /\ Size(L) > 0 =>
          /\ Facts(R) = {<<<<l>>, Total([i \in 1..L.sh[Axis(e)] |->
                            CellAt(L, IF Axis(e) = 1 THEN <<L.lab[1][i], l>> ELSE <<l, L.lab[2][i]>>)],
                            IF e.f = "std" THEN "var" ELSE e.f)>> : l \in SetOf(R.lab[1])}
          /\ R.lab = DropAt(L.lab, Axis(e))
LawMissing(e, L, R) ==
  CASE e.op = "pred" ->
         /\ R.lab = L.lab
         /\ e.f = "isfinite" => \A i \in 1..Len(L.d) :
              Truth(R.d[i]) <=> ~Truth(MapPred(L, "isnan").v.d[i]) /\ ~Truth(MapPred(L, "isinf").v.d[i])
         /\ e.f = "ismissing" /\ L.k \in {"i", "b"} => \A i \in 1..Len(L.d) : ~Truth(R.d[i])
    [] e.op = "nx" -> R.i = <<Len(SelectSeq(MapPred(L, "isfinite").v.d, Truth))>>
    [] e.op = "nan_replace" -> \A i \in 1..Len(L.d) :
                                 R.d[i] = IF IsNaN(L.d[i]) THEN e.c ELSE L.d[i]
    [] e.op = "push" ->
         /\ \A f \in Facts(L) : IsFin(f[2]) => f \in Facts(R)
         /\ e.w = 0 => Facts(R) = {IF IsFin(f[2]) THEN f ELSE <<f[1], NaN>> : f \in Facts(L)}
         \* one step w times (infinities are missing, too)
         /\ e.w > 0 => R = Push(Push(L, 1, e.ax).v, e.w - 1, e.ax).v
LawElement(e, L, R) ==
  /\ e.op # "maplabel" => R.lab = L.lab
  /\ CASE e.op = "unary" /\ e.f = "neg" -> Unary(R, "neg") = Ok(L)
       [] e.op = "unary" /\ e.f = "invert" -> Unary(R, "invert") = Ok(L)
       [] e.op = "unary" /\ e.f = "abs" -> Unary(R, "abs") = Ok(R)
            /\ \A i \in 1..Len(L.d) : R.d[i] \in {L.d[i], Neg(L.d[i])}
       [] e.op = "unary" /\ e.f = "sign" ->
            \A i \in 1..Len(L.d) : IsNum(L.d[i]) => Mul(R.d[i], L.d[i]) = Unary(L, "abs").v.d[i]
       [] e.op = "power" -> e.q > 0 => \A i \in 1..Len(L.d) :
                              R.d[i] = Mul(L.d[i], Power(L, e.q - 1).v.d[i]) \/ e.q = 1
       [] e.op = "clip" -> /\ Clip(R, e.lo, e.hi) = Ok(R)
                           /\ \A i \in 1..Len(L.d) : IsNaN(R.d[i]) \/ (Le(e.lo, R.d[i]) /\ Le(R.d[i], e.hi))
                           /\ \A i \in 1..Len(L.d) : IsNaN(L.d[i]) <=> IsNaN(R.d[i])
       [] e.op = "maplabel" ->
            LET to(l) == e.fm[l + 1][2]
                on(a) == e.ax = NoAxis \/ a = Axis(e)
            IN Facts(R) = {<<[a \in 1..ND(L) |-> IF on(a) THEN to(f[1][a]) ELSE f[1][a]], f[2]>> :
                           f \in Facts(L)}
       [] e.op = "cum" ->
            \A i \in 1..Len(L.d) :
              IF IsNaN(L.d[i]) THEN IsNaN(R.d[i])
              ELSE ND(L) = 1 => R.d[i] = Total(SubSeq(L.d, 1, i), IF e.f = "cumsum" THEN "sum" ELSE "prod")
       [] OTHER -> TRUE
LawMove(e, L, R) ==
  /\ R.lab = L.lab
  /\ CASE e.op = "move" ->
            /\ ND(L) = 1 => \A i \in 1..Len(L.d) :
                 IF i < e.w THEN IsNaN(R.d[i])
                 ELSE e.f \notin {"sum", "mean", "min", "max", "median"} \/
                        R.d[i] = Total(SubSeq(L.d, i - e.w + 1, i), e.f)
            /\ e.w = 1 /\ e.f \in {"mean", "min", "max", "median"} => R.d = L.d
       [] e.op = "movingsum" ->
            \A i \in 1..Len(L.d) :
              LET lo == IF e.back = 0 THEN i + e.skip ELSE i - e.skip - e.w + 1
                  hi == lo + e.w - 1
                  s == SubSeq(L.d, lo, hi)
              IN IF lo < 1 \/ hi > Len(L.d) THEN IsNaN(R.d[i])
                 ELSE IF e.norm = 0 THEN R.d[i] = Total(s, "sum")
                 ELSE IF Valid(s) = <<>> THEN IsNaN(R.d[i])
                 ELSE R.d[i] = Mul(IntC(e.w), Total(s, "mean"))
LawRank(e, L, R) ==
  CASE e.op = "ranking" ->
         /\ R.lab = L.lab
         /\ ND(L) = 1 \/ e.ax = NoAxis =>
              /\ \A i, j \in 1..Len(L.d) :
                   /\ Lt(L.d[i], L.d[j]) => Lt(R.d[i], R.d[j])
                   /\ EqC(L.d[i], L.d[j]) => R.d[i] = R.d[j]
              /\ \A i \in 1..Len(L.d) : IsNaN(L.d[i]) <=> IsNaN(R.d[i])
              /\ e.norm = "-1,1" => /\ \A i \in 1..Len(R.d) : IsNaN(R.d[i]) \/ (Le(R.d[i], IntC(1)) /\ Le(IntC(-1), R.d[i]))
                                    /\ Valid(R.d) # <<>> => SumSeq(Valid(R.d)) = IntC(0)
    [] e.op = "lastrank" /\ ND(L) = 1 -> R.t = "S" /\ (IsNaN(R.c) \/ (Le(R.c, IntC(1)) /\ Le(IntC(-1), R.c)) \/ IsInf(R.c))
    [] e.op = "quantile" -> \A i, j \in 1..Len(L.d) :
                              /\ Lt(L.d[i], L.d[j]) => (Le(R.d[i], R.d[j]) \/ R.d[i] = AnyCell \/ R.d[j] = AnyCell)
                              /\ IsNaN(L.d[i]) <=> IsNaN(R.d[i])
    [] OTHER -> TRUE
LawNorm(e, L, R) ==
  /\ R.lab = L.lab
  /\ \A i \in 1..Len(L.d) : IsNaN(L.d[i]) => IsNaN(R.d[i])
  /\ e.f \in {"demean", "demedian"} =>
       /\ \A i \in 1..Len(L.d) : IsNaN(L.d[i]) <=> IsNaN(R.d[i])
       /\ Normalize(R, e.f, e.ax) = Ok(R)
       /\ e.ax = NoAxis /\ Valid(R.d) # <<>> =>
            Total(R.d, IF e.f = "demean" THEN "mean" ELSE "median") = IntC(0)
  \* the mean of the squared z-scores is 1
  /\ e.f = "zscore" /\ e.ax = NoAxis /\ Valid(R.d) # <<>> =>
       MeanOf([i \in 1..Len(Valid(R.d)) |-> LET c == Valid(R.d)[i] IN <<0, Abs(c[2]), c[3]>>]) = IntC(1)
LawGroup(e, L, R) ==
  LET G == e.x[2]  g(l) == CellAt(G, <<l>>) IN
  /\ R.lab = L.lab
  /\ \A f \in Facts(R) :
       LET same == {h \in Facts(L) : /\ g(h[1][Axis(e)]) = g(f[1][Axis(e)])
                                     /\ \A a \in 1..ND(L) : a # Axis(e) => h[1][a] = f[1][a]}
           P(l) == l \in {h[1][Axis(e)] : h \in same}
           ls == SelectSeq(L.lab[Axis(e)], P)
           cells == [i \in 1..Len(ls) |-> CellAt(L, [f[1] EXCEPT ![Axis(e)] = ls[i]])]
       IN IF NoGroup(G.k, g(f[1][Axis(e)])) THEN IsNaN(f[2])
          ELSE CASE e.f = "group_mean" -> f[2] = Total(cells, "mean")
                 [] e.f = "group_median" -> f[2] = Total(cells, "median")
                 [] OTHER -> IsNaN(f[2]) <=> IsNaN(CellAt(L, f[1]))
LawSplit(e, R) ==
  CASE e.op = "split" ->
    LET L == e.x[1]  a == Axis(e)
        part(s) == UNION {Where(L, a, L.lab[a][s[i] + 1]) : i \in 1..Len(s)}
    IN Facts(R.v[1]) = part(e.tr) /\ Facts(R.v[2]) = part(e.te)
LawCov(e, L, R) ==
  CASE e.op = "cov" -> /\ R.lab[1] = R.lab[2]
                       /\ Transpose(R).v.d = R.d
                       /\ \A f \in Facts(R) : f[1][1] = f[1][2] => Le(IntC(0), f[2])
    [] e.op = "correlation" ->
         LET c == IF R.t = "S" THEN <<R.c>> ELSE R.d IN
         /\ \A i \in 1..Len(c) : IsNaN(c[i]) \/ (Le(c[i], IntC(1)) /\ Le(IntC(-1), c[i]))
         /\ Correlation(e.x[2], e.x[1], e.ax) = Ok(R)

(* every cell has a name of its own, and the labels are as given *)
LawMake(e, R) ==
  /\ Cardinality(Names(R)) = Size(R)
  /\ R.d = e.x[1].d /\ R.sh = e.x[1].sh
  /\ IF e.haslab = 0 THEN \A a \in 1..ND(R) : \A i \in 1..R.sh[a] : R.lab[a][i] = i - 1
     ELSE R.lab = [a \in 1..Len(e.lab) |-> e.lab[a].v]
LawNew(e, R) ==
  /\ Cardinality(Names(R)) = Size(R) /\ R.k = e.k
  /\ e.haslab = 1 => R.lab = e.lab
  /\ e.hassh = 1 => R.sh = e.sh
  /\ e.haslab = 0 => \A a \in 1..ND(R) : \A i \in 1..R.sh[a] : R.lab[a][i] = i - 1
  /\ e.op = "lrange" /\ Size(R) > 0 =>
       /\ R.d[1] = e.start
       /\ \A i \in 2..Len(R.d) : Sub(R.d[i], R.d[i - 1]) = e.step
  /\ e.op = "const" => SetOf(R.d) \subseteq {e.c}
LawUnique(e, L, R) ==
  LET u == R.v[1].d IN
  /\ SetOf(u) = SetOf(L.d) /\ NoDup(u)
  /\ \A i \in 2..Len(u) : ~Lt(u[i], u[i - 1])
  /\ e.ri = 1 => \A i \in 1..Len(u) :
       /\ L.d[R.v[2].i[i] + 1] = u[i]
       /\ \A j \in 1..R.v[2].i[i] : L.d[j] # u[i]
  /\ e.rv = 1 => LET v == R.v[2 + e.ri].i
                 IN Len(v) = Len(L.d) /\ \A i \in 1..Len(v) : u[v[i] + 1] = L.d[i]

(* Laws of refusals: when the specification may say that a call raises     *)
OffAxis(a, L) == a # NoAxis /\ a \notin (-ND(L))..(ND(L) - 1)
Refusable(e) ==
  CASE e.op = "construct" ->
         LET n == Len(e.x[1].sh) IN
         \/ n = 0
         \/ e.haslab = 1 /\ ( \/ Len(e.lab) # n
                             \/ \E a \in 1..n : \/ Len(e.lab[a].v) # e.x[1].sh[a]
                                                \/ Cardinality(SetOf(e.lab[a].v)) < e.x[1].sh[a]
                                                \/ e.lab[a].list = 0)
    [] Prop = "C26" -> \/ e.haslab = 0 /\ e.hassh = 0
                       \/ \E a \in 1..Len(e.lab) : Cardinality(SetOf(e.lab[a])) < Len(e.lab[a])
    [] e.op \in {"sortaxis", "flipaxis", "reduce", "cum", "ranking", "normalize", "maplabel",
                 "movingsum", "cut_missing", "quantile"} ->
         \/ OffAxis(e.ax, e.x[1])
         \/ e.op = "ranking" /\ e.norm \notin Norms
         \/ e.op = "quantile" /\ (e.q < 1 \/ e.q > IF e.ax = NoAxis THEN Size(e.x[1]) ELSE e.x[1].sh[Axis(e)])
         \/ e.op = "movingsum" /\ (e.w < 1 \/ e.w + e.skip > e.x[1].sh[Axis(e)])
         \/ e.op = "cum" /\ e.ax = NoAxis
         \/ e.op = "reduce" /\ e.f \in {"max", "min"} /\ Size(e.x[1]) = 0
    [] e.op = "swapaxes" -> OffAxis(e.ax, e.x[1]) \/ OffAxis(e.ax2, e.x[1])
    [] e.op = "take" -> OffAxis(e.ax, e.x[1]) \/ Cardinality(SetOf(e.idx)) < Len(e.idx)
                        \/ \E i \in 1..Len(e.idx), j \in 1..Len(e.idx) :
                             \/ e.idx[i] \notin (-e.x[1].sh[Axis(e)])..(e.x[1].sh[Axis(e)] - 1)
                             \/ i # j /\ e.idx[i] - e.idx[j] = e.x[1].sh[Axis(e)]
    [] e.op = "pull" -> e.ax = NoAxis \/ OffAxis(e.ax, e.x[1])
                        \/ e.name \notin SetOf(e.x[1].lab[Axis(e)])
    [] e.op = "morph" -> OffAxis(e.ax, e.x[1]) \/ ~NoDup(e.label)
    [] e.op = "op_ll" -> LET L == e.x[1]  M == e.x[2] IN
         \/ ND(L) # ND(M)
         \/ \E a \in 1..ND(L) : SetOf(L.lab[a]) \cap SetOf(M.lab[a]) = {}
    [] e.op = "get" -> \/ Len(e.labs) # ND(e.x[1])
                       \/ \E a \in 1..Len(e.labs) : e.labs[a] \notin SetOf(e.x[1].lab[a])
    [] e.op = "set" -> \/ Len(e.labs) # ND(e.x[1])
                       \/ \E a \in 1..Len(e.labs) : e.labs[a] \notin SetOf(e.x[1].lab[a])
    [] e.op = "setmask" -> e.x[1].lab # e.x[2].lab
    [] e.op = "listmap" -> e.ignore = 0 /\ \E i \in 1..Len(e.l2) : e.l2[i] \notin SetOf(e.l1)
    [] e.op \in {"T", "squeeze", "unary", "power", "clip", "astype", "pred", "nx", "nan_replace",
                 "morph_like", "fill", "roundtrip", "unique", "flattenlabel",
                 "listmap_fill"} ->
         \/ e.op = "morph_like" /\ ND(e.x[1]) # ND(e.x[2])
         \/ e.op = "clip" /\ Lt(e.hi, e.lo)
         \/ e.op = "unary" /\ e.f = "invert" /\ e.x[1].k # "b"
    [] OTHER -> TRUE

Law(e, R) ==
  LET L == e.x[1] IN
  CASE Prop = "C01" -> LawMake(e, R) [] Prop = "C26" -> LawNew(e, R)
    [] Prop = "C33" -> LawUnique(e, L, R)
    [] Prop = "C02" -> LawReorder(e, L, R) [] Prop = "C03" -> LawMorph(e, L, R)
    [] Prop = "C04" -> LawSelect(e, L, R) [] Prop = "C05" -> LawAlign(e, L, R)
    [] Prop = "C06" -> LawOp(e, L, R) [] Prop = "C07" -> LawBin(e, L, R)
    [] Prop = "C08" -> LawMany(e, L, R) [] Prop = "C09" -> LawMerge(e, L, R)
    [] Prop = "C10" -> LawIndex(e, L, R) [] Prop = "C11" -> LawLookup(e, L, R)
    [] Prop = "C12" -> LawAssign(e, L, R) [] Prop = "C14" -> LawMap(e, R)
    [] Prop = "C15" -> LawTrip(e, L, R) [] Prop = "C16" -> LawReduce(e, L, R)
    [] Prop = "C17" -> LawMissing(e, L, R) [] Prop = "C18" -> LawElement(e, L, R)
    [] Prop = "C19" -> LawMove(e, L, R) [] Prop = "C20" -> LawRank(e, L, R)
    [] Prop = "C21" -> LawNorm(e, L, R) [] Prop = "C22" -> LawGroup(e, L, R)
    [] Prop = "C23" -> LawSplit(e, R)
    [] Prop = "C25" -> LawCov(e, L, R)

-----------------------------------------------------------------------------
(* 64 chains walk through the calls *)

Wrote == ndJsonSerialize(IOEnv.CALLS, Calls)
NC == 64
VARIABLES chain, pos, fate
Init == /\ Wrote
        /\ chain \in 1..NC /\ pos = chain - NC /\ fate = ""
(* what the specification says about call i, and whether the law holds *)
(* laws of the relations: what must be among the outcomes, and what not *)
Swapped(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RelLaw(e) ==
  CASE e.op = "assert_equal" ->
         LET L == e.x[1]  M == e.x[2]
             num(X) == {<<f[1], Floats(f[2])>> : f \in Facts(X)}
             same == /\ num(L) = num(M) /\ L.lab = M.lab
                     /\ e.dtype = 1 => L.k = M.k
         IN EqualLarrys(L, M, e.dtype) <=> same
    [] e.op = "cv" ->
         CVBad(e.n, e.kf) \/ \A o \in {Iota(e.n), Rev(Iota(e.n))} :
                               /\ CVRel(e.n, e.kf, CVFolds(e.n, e.kf, o))
                               /\ ~CVRel(e.n, e.kf, Tail(CVFolds(e.n, e.kf, o)))
    [] e.op = "sortby" ->
         LET L == e.x[1] IN
         SortByErr(L, e.name, e.ax) \/
         LET b == 3 - NormAx(e.ax, 2)
             ok == {p \in PermsOf(L.sh[b]) : SortByOK(L, Sel(L, b, p), e.name, e.ax, e.rev)}
             \* the keys, by label
             keys == [i \in 1..L.sh[b] |->
                        CellAt(L, IF b = 2 THEN <<e.name, L.lab[2][i]>> ELSE <<L.lab[1][i], e.name>>)]
         IN /\ ok # {}
            /\ NoDup(keys) => Cardinality(ok) = 1
            /\ \A p \in ok : SortByOK(L, Sel(L, b, Rev(p)), e.name, e.ax, 1 - e.rev)
    [] e.op = "shuffle" ->
         LET L == e.x[1] IN
         (e.ax # NoAxis /\ ~AxisOK(e.ax, ND(L))) \/
         LET to(a, p) == [Sel(L, a, p) EXCEPT !.lab = L.lab] IN
         /\ \A a \in 1..ND(L) : e.ax \in {NoAxis, a - 1, a - 1 - ND(L)} =>
              \A p \in PermsOf(L.sh[a]) : ShuffleOK(L, to(a, p), e.ax)
         \* (the cells are distinct)
         /\ \A a \in 1..ND(L) : a - 1 \in {e.ax, e.ax + ND(L)} /\ Size(L) > L.sh[a] /\ L.sh[a] > 1 =>
              ~\A i, j \in 1..Size(L) : ShuffleOK(L, [L EXCEPT !.d = Swapped(@, i, j)], e.ax)
         /\ Size(L) > 0 => ~ShuffleOK(L, [L EXCEPT !.d[1] = IntC(99)], e.ax)
         /\ Facts(L) # {} => ~ShuffleOK(L, [L EXCEPT !.lab[1][1] = 99], e.ax)
    [] e.op = "shufflelabel" ->
         LET L == e.x[1] IN
         (e.ax # NoAxis /\ ~AxisOK(e.ax, ND(L))) \/
         /\ \A a \in 1..ND(L) : e.ax \in {NoAxis, a - 1, a - 1 - ND(L)} =>
              \A p \in PermsOf(L.sh[a]) :
                ShuffleLabelOK(L, [L EXCEPT !.lab[a] = [i \in 1..Len(@) |-> @[p[i] + 1]]], e.ax)
         /\ \A a \in 1..ND(L) : L.sh[a] > 0 =>
              /\ ~ShuffleLabelOK(L, [L EXCEPT !.lab[a][1] = 99], e.ax)
              /\ e.ax # NoAxis /\ a # NormAx(e.ax, ND(L)) /\ L.sh[a] > 1 =>
                   ~ShuffleLabelOK(L, [L EXCEPT !.lab[a] = Swapped(@, 1, 2)], e.ax)
         /\ Size(L) > 0 => ~ShuffleLabelOK(L, [L EXCEPT !.d[1] = IntC(99)], e.ax)

RECURSIVE IllFormed(_)
IllFormed(v) == CASE v.t = "L" -> ~(v.lab = <<>> /\ v.sh # <<>>) /\ ~WellFormed(v)
                  [] v.t = "V" -> \E i \in 1..Len(v.v) : IllFormed(v.v[i])
                  [] OTHER -> FALSE
Fate(e) == IF e.op \in RelOps THEN IF RelLaw(e) THEN "lawful" ELSE "unlawful"
           ELSE LET s == Spec(e) IN
                CASE s.st = "err" -> IF Refusable(e) THEN "refused" ELSE "unlawful"
                  [] s.st = "any" -> "unspecified"
                  [] OTHER -> IF IllFormed(s.v) THEN "malformed"
                              ELSE IF Law(e, s.v) THEN "lawful" ELSE "unlawful"
Next == /\ pos + NC <= Len(Calls)
        /\ pos' = pos + NC
        /\ chain' = chain
        /\ fate' = Fate(Calls[pos'])
Walk == Init /\ [][Next]_<<chain, pos, fate>>
Lawful == fate \notin {"unlawful", "malformed"}
(* for the coverage numbers *)
Count == pos > 0 => PrintT(<<"FATE", Calls[pos].op, fate>>)
=============================================================================
