-------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* One recorded (or to be replayed) call, and what the specification says  *)
(* about it.  e.op names the operation, e.x holds the larrys and arrays it *)
(* was given, the remaining fields its other arguments.                    *)
(***************************************************************************)
EXTENDS Reports

(* ops whose outcome is a relation, not a value, are dealt with in Rel *)
Spec(e) ==
  LET x == e.x IN
  CASE e.op = "construct"  -> Construct(e)
    [] e.op = "sortaxis"   -> SortAxis(x[1], e.ax, e.rev)
    [] e.op = "flipaxis"   -> FlipAxis(x[1], e.ax)
    [] e.op = "T"          -> Transpose(x[1])
    [] e.op = "swapaxes"   -> SwapAxes(x[1], e.ax, e.ax2)
    [] e.op = "insertaxis" -> IF e.ax = NoAxis THEN Err ELSE InsertAxis(x[1], e.ax, e.label)
    [] e.op = "squeeze"    -> Squeeze(x[1])
    [] e.op = "take"       -> Take(x[1], e.idx, e.ax)
    [] e.op = "flatten"    -> Flatten(x[1], e.order)
    [] e.op = "panel"      -> Panel(x[1])
    [] e.op = "morph"      -> Morph(x[1], e.label, e.ax)
    [] e.op = "morph_like" -> MorphLike(x[1], x[2])
    [] e.op = "keep_label" -> KeepLabel(x[1], e.cmp, e.v, e.ax)
    [] e.op = "keep_x"     -> KeepX(x[1], e.cmp, e.c, e.vac)
    [] e.op = "vacuum"     -> Vacuum(x[1], e.axs)
    [] e.op = "cut_missing" -> CutMissing(x[1], e.fn, e.fd, e.ax)
    [] e.op = "pull"       -> Pull(x[1], e.name, e.ax)
    [] e.op = "lag"        -> Lag(x[1], e.nlag, e.ax)
    [] e.op = "align"      -> Align(x[1], x[2], e.js, e.cast)
    [] e.op = "align_raw"  -> AlignRaw(x[1], x[2], e.js, e.cast)
    [] e.op = "op_ll"      -> OpLL(e.f, x[1], x[2])
    [] e.op = "op_ls"      -> OpLS(e.f, x[1], e.k, e.c, e.refl)
    [] e.op = "op_la"      -> OpLA(e.f, x[1], x[2].k, x[2].d, e.refl)
    [] e.op = "binaryop"   -> BinaryOp(e.f, x[1], x[2], e.js, e.cast, e.one, e.two)
    [] e.op = "align_axis" -> AlignAxis(x, e.axs, e.j)
    [] e.op = "union"      -> UnionLab(x, e.ax)
    [] e.op = "intersection" -> InterLab(x, e.ax)
    [] e.op = "isaligned"  -> IsAligned(x[1], x[2], e.ax)
    [] e.op = "stack"      -> Stack(e.mode, e.names, x)
    [] e.op = "merge"      -> Merge(x[1], x[2], e.upd)
    [] e.op = "getitem"    -> GetItem(x[1], e.ix)
    [] e.op = "get"        -> Get(x[1], e.labs)
    [] e.op = "labelindex" -> LabelIndex(x[1], e.name, e.ax, e.exact)
    [] e.op = "getlabel"   -> GetLabel(x[1], e.ax)
    [] e.op = "maxlabel"   -> MaxMinLabel(x[1], e.ax, 1)
    [] e.op = "minlabel"   -> MaxMinLabel(x[1], e.ax, 0)
    [] e.op = "lix"        -> LixGet(x[1], e.ix, e.tup)
    [] e.op = "setitem"    -> SetItem(x[1], e.ix, e.v)
    [] e.op = "setmask"    -> SetMask(x[1], x[2], e.v)
    [] e.op = "set"        -> SetLabel(x[1], e.labs, e.c)
    [] e.op = "fill"       -> Fill(x[1], e.c)
    [] e.op = "lixset"     -> LixSet(x[1], e.ix, e.tup, e.v)
    [] e.op \in {"copy", "getx", "copyx"} -> Ok(x[1])
    [] e.op = "copylabel"  -> OkV([a \in 1..ND(x[1]) |-> VI(x[1].lab[a])])
    [] e.op = "roundtrip"  -> Ok(RoundTrip(x[1]))
    [] e.op = "unflatten"  -> UnFlatten(x[1])
    [] e.op = "fromrows"   -> Ok(FromRows(e.rows))
    \* calculations
    [] e.op = "reduce"     -> Reduce(x[1], e.f, e.ax, e.ddof)
    [] e.op = "pred"       -> MapPred(x[1], e.f)
    [] e.op = "nx"         -> NX(x[1])
    [] e.op = "nans"       -> Nans(e.sh, e.k)
    [] e.op = "missing_marker" -> MissingMarker(x[1])
    [] e.op = "nan_replace" -> NanReplace(x[1], e.c)
    [] e.op = "push"       -> Push(x[1], e.w, e.ax)
    [] e.op = "unary"      -> Unary(x[1], e.f)
    [] e.op = "power"      -> Power(x[1], e.q)
    [] e.op = "halfpower"  -> HalfPower(x[1], e.q)
    [] e.op = "clip"       -> Clip(x[1], e.lo, e.hi)
    [] e.op = "astype"     -> AsType(x[1], e.k)
    [] e.op = "cum"        -> Cumulative(x[1], e.f, e.ax)
    [] e.op = "maplabel"   -> MapLabel(x[1], e.fm, e.ax)
    [] e.op = "unique"     -> UniqueOp(x[1], e.ri, e.rv)
    [] e.op = "typepred"   -> TypePred(e.f, e.k)
    [] e.op = "attrs"      -> OkI(<<Size(x[1]), ND(x[1])>> \o x[1].sh)
    [] e.op = "flattenlabel" -> FlattenLabel(e.labs, e.order)
    [] e.op = "move"       -> Move(x[1], e.f, e.w, e.ax, e.par)
    [] e.op = "movingsum"  -> MovingSum(x[1], e.w, e.skip, e.ax, e.norm, e.back)
    [] e.op = "ranking"    -> Ranking(x[1], e.ax, e.norm)
    [] e.op = "lastrank"   -> LastRankOp(x[1], e.ax, e.m)
    [] e.op = "quantile"   -> Quantile(x[1], e.q, e.ax)
    [] e.op = "normalize"  -> Normalize(x[1], e.f, e.ax)
    [] e.op = "group"      -> Group(x[1], x[2], e.f, e.ax, e.norm)
    [] e.op = "split"      -> Split(x[1], e.tr, e.te, e.ax)
    [] e.op = "splitarr"   -> OkV(<<TakeArr(x[1], e.tr, e.ax), TakeArr(x[1], e.te, e.ax)>>)
    [] e.op = "cov"        -> Cov(x[1])
    [] e.op = "correlation" -> Correlation(x[1], x[2], e.ax)
    [] e.op = "lrange"     -> Create(e, e.k, LAMBDA i : ToKind(Add(e.start,
                                   Mul(IntC(i - 1), e.step)), e.k))
    [] e.op = "const"      -> Create(e, e.k, LAMBDA i : e.c)
    [] e.op = "empty"      -> Create(e, e.k, LAMBDA i : AnyCell)
    [] e.op = "rand"       -> Create(e, "f", LAMBDA i : IF i \in DOMAIN e.draws THEN e.draws[i]
                                                               ELSE NaN)
    \* without a shape or label: one number, and no other argument; the
    \* source of numbers that was given is the one that is used
    [] e.op = "rand0"      -> IF e.bad = 1 \/ (e.drawn # 0 /\ e.draws = <<>>) THEN Err
                              ELSE OkS("f", IF e.drawn = 0 THEN AnyCell ELSE e.draws[1])
    [] e.op = "listmap"    -> ListMap(e.l1, e.l2, e.ignore)
    [] e.op = "listmap_fill" -> ListMapFill(e.l1, e.l2, e.fill)
    [] e.op = "space"      -> Space(e.fsize, e.stored)
    [] e.op = "quotes"     -> Quotes(e.tabs, e.items, e.adjust)
    \* a step that could not be evaluated
    [] e.op = "unjudged"   -> Unspecified
    \* someone writes to a cell or a list of labels directly
    [] e.op = "tamper"     -> LET L == x[1] IN
                              Ok([L EXCEPT !.d = IF e.at < 0 THEN @ ELSE [@ EXCEPT ![e.at + 1] = ToKind(e.c, L.k)],
                                           !.lab = IF e.tax < 0 THEN @ ELSE [@ EXCEPT ![e.tax + 1] = e.v]])
    \* building the operands of a call, which must be possible
    [] e.op = "setup"      -> OkN
    [] e.op = "must_raise" -> Err
    [] e.op = "unspecified" -> Unspecified

RelOps == {"shuffle", "shufflelabel", "orders", "sortby", "cv", "boot", "rows", "assert_equal",
           "grid", "text", "table", "request"}

-----------------------------------------------------------------------------
(* Comparing an observed value with an expected one: the clauses broken    *)

(* a number whose single precision value does not identify it *)
Coarse(c) == IsNum(c) /\ c[3] > 150
RECURSIVE ValDiff(_, _)
ValDiff(x, o) ==
  IF x.t # o.t THEN {"type"}
  ELSE CASE x.t = "N" -> {}
         [] x.t = "S" -> (IF CellEq(x.c, o.c) \/ (o.c[1] = 9 /\ o.c[3] = 6 /\ Coarse(x.c)) THEN {} ELSE {"value"}) \cup
                         (IF x.k = "?" \/ x.k = o.k THEN {} ELSE {"dtype"})
         [] x.t = "I" -> IF x.i = o.i THEN {} ELSE {"positions"}
         [] x.t = "V" -> IF Len(x.v) # Len(o.v) THEN {"arity"}
                         ELSE UNION {ValDiff(x.v[i], o.v[i]) : i \in 1..Len(x.v)}
         [] x.t = "L" ->
              (IF x.lab = o.lab THEN {} ELSE {"label"}) \cup
              (IF x.k = "?" \/ x.k = o.k THEN {} ELSE {"dtype"}) \cup
              (IF x.sh # o.sh THEN {"shape"}
               ELSE IF /\ Len(x.d) = Len(o.d)
                       /\ \A i \in 1..Len(x.d) :
                            \/ CellEq(x.d[i], o.d[i])
                            \/ o.dt = "<f4" /\ Coarse(x.d[i])
                    THEN {} ELSE {"data"})

(* The larrys in an observed value must be well formed.                    *)
RECURSIVE Malformed(_)
Malformed(o) ==
  CASE o.t = "L" -> (IF o.arr = 1 THEN FALSE ELSE ~WellFormed(o))
    [] o.t = "V" -> \E i \in 1..Len(o.v) : Malformed(o.v[i])
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Operations specified by a relation between the call and its outcome     *)

ToStrRows(L) == SetOf(ToRows(L))
Rel(e) ==
  LET x == e.x  o == e.out
      need(bad, clauses) ==
        IF bad THEN (IF o.st = "err" THEN {} ELSE {"should_raise"})
        ELSE IF o.st # "ok" THEN {"raised"} ELSE clauses
      shaped == /\ o.v.t = "L" /\ o.v.sh = x[1].sh /\ Len(o.v.d) = Len(x[1].d)
                /\ Len(o.v.lab) = Len(x[1].lab)
  IN CASE e.op = "shuffle" ->
            need(e.ax # NoAxis /\ ~AxisOK(e.ax, ND(x[1])),
                 IF ~shaped THEN {"shape"} ELSE
                 IF ShuffleOK(x[1], o.v, e.ax) THEN {} ELSE {"permutation"})
       [] e.op = "shufflelabel" ->
            need(e.ax # NoAxis /\ ~AxisOK(e.ax, ND(x[1])),
                 IF ~shaped THEN {"shape"} ELSE
                 IF ShuffleLabelOK(x[1], o.v, e.ax) THEN {} ELSE {"permutation"})
       \* e.orders: every order of e.m slices that many shuffles gave
       [] e.op = "orders" ->
            need(FALSE, IF SetOf(e.orders) = PermsOf(e.m) THEN {} ELSE {"orders"})
       [] e.op = "sortby" ->
            need(SortByErr(x[1], e.name, e.ax),
                 IF ~shaped THEN {"shape"} ELSE
                 IF SortByOK(x[1], [t |-> "L", k |-> o.v.k, sh |-> o.v.sh,
                                    d |-> o.v.d, lab |-> o.v.lab], e.name, e.ax, e.rev)
                 THEN {} ELSE {"order"})
       [] e.op = "cv" ->
            need(CVBad(e.n, e.kf),
                 IF e.known = 1
                 THEN IF e.folds = CVFolds(e.n, e.kf, e.order) THEN {} ELSE {"folds"}
                 ELSE IF CVRel(e.n, e.kf, e.folds) THEN {} ELSE {"folds"})
       [] e.op = "boot" ->
            need(BootBad(e.n, e.b),
                 IF ~BootRel(e.n, e.b, e.folds) THEN {"folds"}
                 ELSE IF e.known = 1
                 THEN IF [f \in 1..e.b |-> e.folds[f].train] = BootDraws(e.n, e.b, e.draws)
                      THEN {} ELSE {"draws"}
                 ELSE {})
       \* a conversion that lists every cell once with its labels, in any
       \* order (ordered = 0) or in C order (ordered = 1)
       [] e.op = "rows" ->
            need(FALSE, IF e.ordered = 1
                        THEN IF e.rows = ToRows(x[1]) THEN {} ELSE {"rows"}
                        ELSE IF /\ Len(e.rows) = Size(x[1])
                                /\ SetOf(e.rows) = SetOf(ToRows(x[1]))
                             THEN {} ELSE {"rows"})
       \* text written by tofile, parsed back
       [] e.op = "grid" ->
            need(ND(x[1]) \notin {1, 2},
                 IF e.glab = x[1].lab /\ e.gd = x[1].d THEN {} ELSE {"text"})
       \* the printed form: e.txt is a sequence of label ids per axis, -5 for
       \* the ellipsis that replaces all but the first and last three
       [] e.op = "text" ->
            need(FALSE,
                 IF e.txt = [a \in 1..ND(x[1]) |->
                       LET l == x[1].lab[a]  n == Len(l) IN
                       IF n <= 10 THEN l
                       ELSE SubSeq(l, 1, 3) \o <<-5>> \o SubSeq(l, n - 2, n)]
                 THEN (IF e.gk # x[1].k THEN {"dtype"}
                       ELSE IF e.gd = x[1].d THEN {} ELSE {"cells"}) ELSE {"text"})
       \* the printed archive
       [] e.op = "table" ->
            need(FALSE, IF e.rows = Table(x, e.keys) THEN {} ELSE {"table"})
       \* the tables that quotes asked for; it stops at the first bad one
       [] e.op = "request" ->
            IF /\ Len(e.urls) <= Len(e.tabs)
               /\ e.done = 1 => Len(e.urls) = Len(e.tabs)
               /\ \A i \in 1..Len(e.urls) : AskedFor(e.tabs[i], e.d1, e.d2, e.urls[i])
            THEN {} ELSE {"request"}
       \* e.iscopy: -1 no original given, 1 must be a copy, 0 must be a view;
       \* e.shd, e.shl: whether data / labels really are shared with it
       [] e.op = "assert_equal" ->
            LET eq == /\ e.kinds = 3 => EqualScalars(x[1], x[2], e.dtype)
                      /\ e.kinds = 1 => EqualLarrys(x[1], x[2], e.dtype)
                      /\ e.kinds = 2 => FALSE
                cp == CASE e.iscopy = -1 -> TRUE
                        [] e.iscopy = 1 -> e.shd = 0 /\ \A a \in 1..Len(e.shl) : e.shl[a] = 0
                        [] e.iscopy = 0 -> e.shd = 1 /\ \A a \in 1..Len(e.shl) : e.shl[a] = 1
            IN IF o.st = "ok" THEN (IF eq /\ cp THEN {} ELSE {"accepted_different"})
               ELSE IF o.exc # "AssertionError" THEN {"wrong_exception"}
               ELSE IF eq /\ cp THEN {"rejected_equal"} ELSE {}

-----------------------------------------------------------------------------
(* Aliasing: 1 bit data, 2 bit labels, 4 bit two results share, 8 bit       *)
(* shared with a list or array among the arguments, 16 bit: the call       *)
(* changed such an argument.                                               *)
(* Operations documented to return copies (or computing fresh results).    *)

ViewOps == {"squeeze", "getitem", "lix", "pull", "align_raw"}
(* pull documents that its labels are copies *)
NeverShared(e) ==
  CASE e.op \in {"lix", "align_raw", "squeeze"} -> FALSE
    [] e.op = "getitem" -> \E i \in 1..Len(e.ix) : e.ix[i].y \notin {"i", "s"}
    [] e.op = "flipaxis" -> e.copy = 1
    [] e.op = "maplabel" -> e.copy = 1
    [] e.op = "getx" -> e.copy = 1
    [] e.op = "getlabel" -> e.copy = 1
    [] e.op = "construct" -> FALSE
    [] e.op = "pull" -> FALSE
    [] OTHER -> TRUE

(* a new larry is made of the data and lists of labels that it is given     *)
KeepsArguments(e) == e.op \in {"construct", "lrange", "const", "empty", "rand"}

(* The exact dtype (size included): operations that only move, select or    *)
(* assign cells keep it, unless the kind of the dtype has to change.       *)
KeepsDtype == {"sortaxis", "flipaxis", "T", "swapaxes", "insertaxis", "squeeze", "take",
               "flatten", "panel", "morph", "morph_like", "keep_label", "keep_x", "vacuum",
               "cut_missing", "pull", "lag", "sortby", "getitem", "lix", "setitem", "setmask",
               "set", "fill", "lixset", "copy", "getx", "copyx", "maplabel", "shuffle",
               "shufflelabel", "split", "splitarr", "nan_replace"}
SameWidth(a, o) == (o.t = "L" /\ o.k = a.k /\ o.d # <<>>) => o.dt = a.dt
Resized(e) ==
  LET x == e.x  v == e.out.v IN
  CASE e.op \in KeepsDtype ->
         IF v.t = "V" THEN \E i \in 1..Len(v.v) : ~SameWidth(x[1], v.v[i])
         ELSE ~SameWidth(x[1], v)
    [] e.op \in {"align", "align_raw", "align_axis"} ->
         v.t = "V" /\ \E i \in 1..MinI(Len(v.v), Len(x)) : ~SameWidth(x[i], v.v[i])
    [] "dt" \in DOMAIN e -> v.t = "L" /\ v.dt # e.dt
    [] OTHER -> FALSE

Unmoved(e) == e.post = <<>> \/ e.post = e.x
(* s is Spec(e), or Unspecified for an operation that is a relation *)
SpecOf(e) == IF e.op \in RelOps THEN Unspecified ELSE Spec(e)
VerdictWith(e, s) ==
  LET o == e.out
      base ==
        IF o.st = "hang" THEN {"hang"}
        ELSE IF e.op \in RelOps THEN Rel(e)
        ELSE CASE s.st = "any" -> {}
               [] s.st = "err" -> (IF o.st = "err" THEN {} ELSE {"should_raise"})
               [] s.st = "ok" -> (IF o.st # "ok" THEN {"raised"}
                                  ELSE ValDiff(s.v, o.v))
      form == IF o.st = "ok" /\ Malformed(o.v) THEN {"malformed"} ELSE {}
      mut == IF Unmoved(e) /\ e.alias < 16 THEN {} ELSE {"mutated"}
      ali == IF \/ e.alias % 8 # 0 /\ NeverShared(e)
                \/ (e.alias \div 8) % 2 = 1 /\ ~KeepsArguments(e)
             THEN {"aliased"} ELSE {}
      wid == IF o.st = "ok" /\ Resized(e) THEN {"dtype"} ELSE {}
  IN base \cup form \cup mut \cup ali \cup wid
(* Whether the event exercised anything: unspecified outcomes do not count *)
Vacuous(e, s) == e.op \notin RelOps /\ s.st = "any"
=============================================================================
