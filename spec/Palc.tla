-------------------------------- MODULE Palc --------------------------------
(***************************************************************************)
(* oxalica/palc: what a parser derived from a definition does with argv.   *)
(*                                                                         *)
(* Part 1  elaboration: source-level definition -> tables (what the derive *)
(*         macros promise: names, descriptions, field order, scopes)       *)
(* Part 2  value conversion                                                *)
(* Part 3  the parser as a state machine that is handed argv one element   *)
(*         at a time; one guarded action per kind of step                  *)
(* Part 4  end of argv: constraints, defaults, the result                  *)
(*                                                                         *)
(* The state machine mirrors run_parser/visit_positional/visit_named in    *)
(* src/runtime.rs: one action per branch; the code pulls the elements the  *)
(* environment pushes here.                                                *)
(***************************************************************************)
EXTENDS Symbols, PalcDefs

-----------------------------------------------------------------------------
(* Part 1: elaboration                                                     *)

S_dash == "-"
S_eq == "="

\* Encoded names as they are looked up: long names keep the "--", a short
\* name is the bare character.
EncLong(s) == <<"-", "-">> \o s

PrimLong(f) == IF f.long.m = "no" THEN <<>>
               ELSE IF f.long.m = "inh" THEN <<Rename(f.id, "kebab-case")>> ELSE <<f.long.v>>
PrimShort(f) == IF f.short.m = "no" THEN <<>>
                ELSE IF f.short.m = "inh" THEN <<SubSeq(f.id, 1, 1)>> ELSE <<f.short.v>>
IsNamed(f) == f.long.m # "no" \/ f.short.m # "no"

\* In order: primary long, primary short, aliases, short aliases.
NameSeq(f) ==
  IF ~IsNamed(f) THEN <<>>
  ELSE [i \in 1..Len(PrimLong(f)) |-> EncLong(PrimLong(f)[i])] \o PrimShort(f)
       \o [i \in 1..Len(f.alias) |-> EncLong(f.alias[i])] \o f.salias

ReqVal(f) == f.kind \in {"value", "option", "vec", "optvec"}
IsVec(f) == f.kind \in {"vec", "optvec"}
Required(f) == f.dflt.m = "none" /\ (f.required \/ f.kind = "value")
ValueName(f) == IF f.vname.m = "no" THEN Rename(f.id, "SCREAMING_SNAKE_CASE") ELSE f.vname.v

Lt == <<"<">>  Gt == <<">">>  LBr == <<"[">>  RBr == <<"]">>

Desc(f) ==
  IF IsNamed(f)
  THEN LET l == PrimLong(f)  s == PrimShort(f)
           names == IF l # <<>> /\ s # <<>> THEN <<"-">> \o s[1] \o <<",", " ", "-", "-">> \o l[1]
                    ELSE IF l # <<>> THEN <<"-", "-">> \o l[1] ELSE <<"-">> \o s[1]
       IN names \o (IF f.kind = "optopt" THEN <<"[", "=", "<">> \o ValueName(f) \o <<">", "]">>
                    ELSE IF ReqVal(f) THEN (IF f.reqeq THEN <<"=">> ELSE <<" ">>) \o Lt \o ValueName(f) \o Gt
                    ELSE <<>>)
  ELSE (IF Required(f) THEN Lt \o ValueName(f) \o Gt ELSE LBr \o ValueName(f) \o RBr)
       \o (IF IsVec(f) THEN <<".", ".", ".">> ELSE <<>>)

EnumTab(ty) == IF ty.k # "enum" THEN <<>>
               ELSE [i \in 1..Len(ty.vars) |->
                       [n |-> IF ty.vars[i].nm.m = "no" THEN Rename(ty.vars[i].id, ty.rule) ELSE ty.vars[i].nm.v,
                        id |-> ty.vars[i].id]]

ElabField(f) ==
  [f EXCEPT !.ty = [lg |-> "lg" \in DOMAIN f.ty /\ f.ty.lg, k |-> f.ty.k, lo |-> f.ty.lo, hi |-> f.ty.hi, en |-> EnumTab(f.ty)]]
  @@ [named |-> IsNamed(f), names |-> NameSeq(f), nameset |-> {NameSeq(f)[i] : i \in 1..Len(NameSeq(f))},
      desc |-> Desc(f), reqval |-> ReqVal(f), isvec |-> IsVec(f), req |-> Required(f),
      greedy |-> f.last \/ f.trailing]

\* Binding order of the positional fields: singles in declaration order, then
\* the variable-length one, then the `last` one.
PosOrder(fs) ==
  LET all == [i \in 1..Len(fs) |-> i]
  IN SelectSeq(all, LAMBDA i : ~IsNamed(fs[i]) /\ ~IsVec(fs[i]) /\ ~fs[i].last)
     \o SelectSeq(all, LAMBDA i : ~IsNamed(fs[i]) /\ IsVec(fs[i]) /\ ~fs[i].last)
     \o SelectSeq(all, LAMBDA i : ~IsNamed(fs[i]) /\ fs[i].last)

\* A command's own struct followed by everything flattened into it, outer first.
RECURSIVE Structs(_, _)
Structs(nodes, n) == <<n>> \o Flat([j \in 1..Len(nodes[n].flats) |-> Structs(nodes, nodes[n].flats[j])])
\* Position of the j-th flattened child of n in Structs(n).
RECURSIVE FlatOff(_, _, _)
FlatOff(nodes, n, j) == IF j = 1 THEN 2
                        ELSE FlatOff(nodes, n, j - 1) + Len(Structs(nodes, nodes[n].flats[j - 1]))

\* All declarations of a name visible in command n, in search order; ns[k][i] is
\* the set of names of field i of the k-th struct.
HitsIn(ns, gl, name) ==
  Flat([k \in 1..Len(ns) |->
          [x \in 1..Len(SelectSeq([i \in 1..Len(ns[k]) |-> i], LAMBDA i : name \in ns[k][i])) |->
             LET i == SelectSeq([y \in 1..Len(ns[k]) |-> y], LAMBDA y : name \in ns[k][y])[x]
             IN [k |-> k, i |-> i, g |-> gl[k][i]]]])

CmdName(v) == Rename(v.id, "kebab-case")

ElabNode(nodes, n) ==
  LET ss == TLCEval(Structs(nodes, n))
      nd == nodes[n]
      ns == TLCEval([k \in 1..Len(ss) |-> [i \in 1..Len(nodes[ss[k]].fields) |->
                       LET q == NameSeq(nodes[ss[k]].fields[i]) IN {q[x] : x \in 1..Len(q)}]])
      gl == TLCEval([k \in 1..Len(ss) |-> [i \in 1..Len(nodes[ss[k]].fields) |-> nodes[ss[k]].fields[i].global]])
      all == TLCEval(UNION {UNION {ns[k][i] : i \in 1..Len(ns[k])} : k \in 1..Len(ns)})
  IN [ fields |-> [i \in 1..Len(nd.fields) |-> ElabField(nd.fields[i])],
       flats |-> nd.flats,
       flatoff |-> [j \in 1..Len(nd.flats) |-> FlatOff(nodes, n, j)],
       ss |-> ss,
       posord |-> PosOrder(nd.fields),
       nt |-> [name \in all |-> HitsIn(ns, gl, name)],
       hassub |-> nd.sub.has, subopt |-> nd.sub.opt,
       cmds |-> [c \in 1..Len(nd.sub.cmds) |-> [n |-> CmdName(nd.sub.cmds[c]), node |-> nd.sub.cmds[c].node, id |-> nd.sub.cmds[c].id]],
       hasexcl |-> \E i \in 1..Len(nd.fields) : nd.fields[i].excl ]

\* The tables of every definition (constant level: evaluated once).
RT == TLCEval([d \in 1..Len(Defs) |->
        [ name |-> Defs[d].name, root |-> Defs[d].root,
          nodes |-> [n \in 1..Len(Defs[d].nodes) |-> ElabNode(Defs[d].nodes, n)] ]])

-----------------------------------------------------------------------------
(* Part 2: value conversion                                                *)

Txt_true == <<"t", "r", "u", "e">>
Txt_false == <<"f", "a", "l", "s", "e">>

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = "0" THEN StripZeros(Tail(s)) ELSE s

\* a <= b for digit strings without leading zeros (integers of any width)
RECURSIVE DigLeq(_, _, _)
DigLeq(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF a[i] = b[i] THEN DigLeq(a, b, i + 1) ELSE DigitVal[a[i]] < DigitVal[b[i]]
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DigLeq(a, b, 1))

\* src: which complaint of the type's own conversion becomes the error's source ("": it has none)
NoVal(src, ctx) == [ok |-> FALSE, v |-> <<>>, s |-> src, c |-> ctx]
Val(v) == [ok |-> TRUE, v |-> v, s |-> "", c |-> {}]

\* The leftmost problem of a text that is not a number within +-limit: reading stops at the first
\* character that is no digit, or that takes the number out of range.
RECURSIVE IntFault(_, _, _, _)
IntFault(ds, i, limit, over) ==
  IF i > Len(ds) \/ ~IsDigits(<<ds[i]>>) THEN "int:digit"
  ELSE IF ~NumLeq(StripZeros(SubSeq(ds, 1, i)), limit) THEN over
  ELSE IntFault(ds, i + 1, limit, over)

\* lo, hi: digit strings of -(minimum) and of the maximum; lo = <<>>: unsigned
ParseInt(lo, hi, t) ==
  LET neg == t # <<>> /\ t[1] = "-" /\ lo # <<>>
      sgn == neg \/ (t # <<>> /\ t[1] = "+")
      ds == IF sgn THEN Tail(t) ELSE t
      z == StripZeros(ds)
  IN IF t = <<>> THEN NoVal("int:empty", {})
     ELSE IF ds = <<>> THEN NoVal("int:digit", {})
     ELSE IF IsDigits(ds) /\ NumLeq(z, IF neg THEN lo ELSE hi) THEN Val(IF neg /\ z # <<"0">> THEN <<"-">> \o z ELSE z)
     ELSE NoVal(IF neg THEN IntFault(ds, 1, lo, "int:low") ELSE IntFault(ds, 1, hi, "int:high"), {})

\* Conversion of one text to a value of type ty; the value is again a text:
\* its canonical rendering.
ParseVal(ty, t) ==
  CASE ty.k = "os" -> Val(t)                            \* OsString, PathBuf: anything
    [] ty.k = "raw" -> IF \E i \in 1..Len(t) : t[i] = "!" THEN NoVal("raw", {})
                       ELSE Val(<<"R", ":">> \o t)      \* a TryFrom<&OsStr> type
    [] ty.k = "enum" ->
         LET hit == {i \in 1..Len(ty.en) : ty.en[i].n = t}
         IN IF hit # {} THEN Val(ty.en[CHOOSE i \in hit : TRUE].id)
            ELSE NoVal(IF IsUtf8(t) THEN "" ELSE "utf8", {ty.en[i].n : i \in 1..Len(ty.en)} \ {<<>>})   \* an empty name is invisible in the list
    [] ~IsUtf8(t) -> NoVal("utf8", {})
    [] ty.k = "str" -> Val(t)
    [] ty.k = "int" -> ParseInt(ty.lo, ty.hi, t)
    [] ty.k = "nz" -> LET r == ParseInt(ty.lo, ty.hi, t) IN IF r.ok /\ r.v = <<"0">> THEN NoVal("int:zero", {}) ELSE r
    [] ty.k = "bool" -> IF t = Txt_true \/ t = Txt_false THEN Val(t) ELSE NoVal("bool", {})
    [] ty.k = "char" -> IF Len(t) = 1 THEN Val(t) ELSE NoVal(IF t = <<>> THEN "char:empty" ELSE "char:many", {})
    [] ty.k = "tag" -> IF t = <<>> \/ t[1] = "!" THEN NoVal("tag", {})
                       ELSE Val(<<"T", ":">> \o t)      \* a FromStr type
    [] ty.k = "ver" -> IF Len(t) < 2 \/ t[1] # "v" \/ ~IsDigits(Tail(t)) THEN NoVal("ver", {})
                       ELSE Val(Tail(t))                \* a FromStr type with an error type of its own

-----------------------------------------------------------------------------
(* Part 3: the state machine                                               *)

\* Outcomes, all of one shape.
Out(k, e, d, i, c, s, v, p) == [k |-> k, e |-> e, d |-> d, i |-> i, c |-> c, s |-> s, v |-> v, p |-> p]
ErrO(e, d, i) == Out("err", e, d, i, {}, "", <<>>, <<>>)
OkO(v) == Out("ok", "", <<>>, <<>>, {}, "", <<v>>, <<>>)
HelpO(path) == Out("help", "", <<>>, <<>>, {}, "", <<>>, path)

Unset == [p |-> "U", v |-> <<>>]

NewLevel(d, n) ==
  LET nd == RT[d].nodes[n]
  IN [n |-> n, np |-> 1, c |-> 0,
      vals |-> [k \in 1..Len(nd.ss) |-> [i \in 1..Len(RT[d].nodes[nd.ss[k]].fields) |-> Unset]]]

NoPend == [l |-> 0, k |-> 0, i |-> 0, nm |-> <<>>, sh |-> FALSE]

\* hp: is the help feature compiled in?
Init0(d) == [d |-> d, hp |-> HelpOn, m |-> "scan", lv |-> <<NewLevel(d, RT[d].root)>>, path |-> <<>>,
             pend |-> NoPend, e |-> {}, h |-> <<>>]

Top(st) == Len(st.lv)
NodeAt(st, l) == RT[st.d].nodes[st.lv[l].n]
FieldAt(st, l, k, i) == RT[st.d].nodes[NodeAt(st, l).ss[k]].fields[i]

Fail(st, es) == [st EXCEPT !.m = "fail", !.e = es, !.pend = NoPend]

\* Which argument does a name denote here?  In the command being entered any
\* declaration; further out only global ones.  l = 0: none.
RECURSIVE SearchUp(_, _, _, _)
SearchUp(st, top, l, name) ==
  IF l = 0 THEN [l |-> 0, k |-> 0, i |-> 0]
  ELSE LET nt == NodeAt(st, l).nt
       IN IF name \notin DOMAIN nt THEN SearchUp(st, top, l - 1, name)
          ELSE LET hits == nt[name]
                   ok == {x \in 1..Len(hits) : l = top \/ hits[x].g}
               IN IF ok = {} THEN SearchUp(st, top, l - 1, name)
                  ELSE LET x == CHOOSE y \in ok : \A z \in ok : y <= z
                       IN [l |-> l, k |-> hits[x].k, i |-> hits[x].i]
SearchFrom(st, top, name) == SearchUp(st, top, top, name)
Search(st, name) == SearchFrom(st, Top(st), name)

\* Store into one place.  Result: [ok, v] or the error's kind, input, source, context.
StoreOk(v) == [ok |-> TRUE, v |-> v, e |-> "", i |-> <<>>, s |-> "", c |-> {}]
StoreErr(e, i, s, c) == [ok |-> FALSE, v |-> Unset, e |-> e, i |-> i, s |-> s, c |-> c]

RECURSIVE PushAll(_, _, _)
PushAll(f, acc, frags) ==
  IF frags = <<>> THEN StoreOk([p |-> "V", v |-> acc])
  ELSE LET r == ParseVal(f.ty, IF f.icase THEN LowerSyms(Head(frags)) ELSE Head(frags))
       IN IF r.ok THEN PushAll(f, Append(acc, r.v), Tail(frags))
          ELSE StoreErr("InvalidValue", Head(frags), r.s, r.c)

\* Case is ignored in comparing each single value with the declared names, not before: neither
\* delimiters nor reported inputs change.
Store(f, pv, hasv, val) ==
     CASE f.kind = "bool" ->
            IF hasv THEN StoreErr("UnexpectedInlineValue", val, "", {})
            ELSE IF pv # Unset THEN StoreErr("Duplicated", <<>>, "", {})
            ELSE StoreOk([p |-> "V", v |-> <<Txt_true>>])
       [] f.kind \in {"value", "option"} ->
            IF pv # Unset THEN StoreErr("Duplicated", <<>>, "", {})
            ELSE PushAll(f, <<>>, <<val>>)
       [] f.kind = "optopt" ->
            IF pv # Unset THEN StoreErr("Duplicated", <<>>, "", {})
            ELSE IF hasv THEN PushAll(f, <<>>, <<val>>) ELSE StoreOk([p |-> "S", v |-> <<>>])
       [] OTHER ->
            PushAll(f, pv.v, IF f.delim = <<>> THEN <<val>> ELSE SplitAt(val, f.delim[1]))

Hist(t, l, k, i, nm, how, val) ==
  [t |-> t, l |-> l, k |-> k, i |-> i, nm |-> nm, how |-> how, val |-> val]

\* Give a value (or none) to argument r of the current state; hs = history item.
Give(st, r, hasv, val, hs) ==
  LET f == FieldAt(st, r.l, r.k, r.i)
      s == Store(f, st.lv[r.l].vals[r.k][r.i], hasv, val)
  IN IF s.ok
     THEN [st EXCEPT !.lv[r.l].vals[r.k][r.i] = s.v, !.h = Append(@, hs)]
     ELSE Fail(st, {Out("err", s.e, f.desc, s.i, s.c, s.s, <<>>, <<>>)})

\* ---- one occurrence of a named argument ----
\* inl: [m |-> "none"|"eq"|"amb", v]; brk: the rest of the element is consumed.
DoNamed(st, short, name, inl) ==
  LET r == Search(st, name)
      f == FieldAt(st, r.l, r.k, r.i)
      how == IF inl.m = "eq" THEN "eq" ELSE IF inl.m = "amb" THEN "att" ELSE "sep"
  IN IF r.l = 0
     THEN IF st.hp /\ (name = <<"h">> \/ name = <<"-", "-", "h", "e", "l", "p">>)
          THEN [brk |-> TRUE, st |-> [st EXCEPT !.m = "help", !.e = {HelpO(st.path)}]]
          ELSE [brk |-> TRUE, st |-> Fail(st, {ErrO("Unexpected", <<>>, IF short THEN <<"-">> \o name ELSE name)})]
     ELSE CASE inl.m = "eq" ->
                 [brk |-> TRUE, st |-> Give(st, r, TRUE, inl.v, Hist("named", r.l, r.k, r.i, name, "eq", inl.v))]
            [] f.reqeq /\ (inl.m = "amb" \/ f.reqval) ->
                 [brk |-> TRUE, st |-> Fail(st, {ErrO("MissingEq", f.desc, <<>>)})]
            [] ~f.reqval ->
                 [brk |-> FALSE, st |-> Give(st, r, FALSE, <<>>, Hist("named", r.l, r.k, r.i, name, "none", <<>>))]
            [] inl.m = "amb" ->
                 [brk |-> TRUE, st |-> Give(st, r, TRUE, inl.v, Hist("named", r.l, r.k, r.i, name, "att", inl.v))]
            [] OTHER ->
                 [brk |-> TRUE, st |-> [st EXCEPT !.m = "value",
                                         !.pend = [l |-> r.l, k |-> r.k, i |-> r.i, nm |-> name, sh |-> short]]]

\* ---- a bundle of short arguments, from its j-th character on ----
RECURSIVE DoBundle(_, _, _)
DoBundle(st, b, j) ==
  IF j > Len(b) THEN st
  ELSE IF b[j] \in InvalidSyms
  THEN Fail(st, {ErrO("Unexpected", <<>>, <<"-">> \o From(b, j))})   \* junk is reported to its end
  ELSE LET after == From(b, j + 1)
           inl == IF after = <<>> THEN [m |-> "none", v |-> <<>>]
                  ELSE IF after[1] = "=" THEN [m |-> "eq", v |-> Tail(after)]
                  ELSE [m |-> "amb", v |-> after]
           r == DoNamed(st, TRUE, <<b[j]>>, inl)
       IN IF r.brk \/ r.st.m = "fail" THEN r.st ELSE DoBundle(r.st, b, j + 1)

\* ---- kinds of argv elements ----
T_dd(t) == t = <<"-", "-">>
T_long(t) == ~T_dd(t) /\ Len(t) >= 2 /\ t[1] = "-" /\ t[2] = "-"
T_bundle(t) == Len(t) >= 2 /\ t[1] = "-" /\ t[2] # "-"
T_free(t) == ~T_dd(t) /\ ~T_long(t) /\ ~T_bundle(t)

CmdHit(st, t) ==
  LET nd == NodeAt(st, Top(st))
      hit == {c \in 1..Len(nd.cmds) : nd.cmds[c].n = t}
  IN IF ~nd.hassub \/ hit = {} THEN 0 ELSE CHOOSE c \in hit : TRUE

\* May the awaited argument take this element as its value?
TakesValue(f, t) ==
  IF t = <<"-">> \/ t = <<>> THEN TRUE
  ELSE IF t[1] # "-" THEN TRUE
  ELSE IF f.hy = "any" THEN TRUE
  ELSE f.hy = "num" /\ IsDigits(Tail(t))

PendField(st) == FieldAt(st, st.pend.l, st.pend.k, st.pend.i)

\* ---- guards: exactly one of these holds in a live state ----
G_Terminator(st, t) == st.m = "scan" /\ T_dd(t)
G_Long(st, t) == st.m = "scan" /\ T_long(t)
G_Bundle(st, t) == st.m = "scan" /\ T_bundle(t)
G_EnterCommand(st, t) == st.m = "scan" /\ T_free(t) /\ CmdHit(st, t) # 0
G_Free(st, t) == st.m = "scan" /\ T_free(t) /\ CmdHit(st, t) = 0
G_TakeValue(st, t) == st.m = "value" /\ TakesValue(PendField(st), t)
G_RefuseValue(st, t) == st.m = "value" /\ ~TakesValue(PendField(st), t)
G_Rest(st, t) == st.m = "rest"
G_Greedy(st, t) == st.m = "greedy"
G_Dead(st, t) == st.m \in {"fail", "help"}

\* ---- effects ----
DoTerminator(st, t) ==
  LET l == Top(st)
      nd == NodeAt(st, l)
      po == nd.posord
      jump == po # <<>> /\ nd.fields[po[Len(po)]].last
  IN [st EXCEPT !.m = "rest", !.lv[l].np = IF jump THEN Len(po) ELSE @,
                !.h = Append(@, Hist("dd", l, 0, 0, <<>>, "", <<>>))]

DoLong(st, t) ==
  LET e == IndexFrom(t, "=", 1)
      name == IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
      inl == IF e = 0 THEN [m |-> "none", v |-> <<>>] ELSE [m |-> "eq", v |-> From(t, e + 1)]
  IN DoNamed(st, FALSE, name, inl).st

DoEnterCommand(st, t) ==
  LET c == CmdHit(st, t)
      l == Top(st)
      nd == NodeAt(st, l)
  IN [st EXCEPT !.lv = Append([@ EXCEPT ![l].c = c], NewLevel(st.d, nd.cmds[c].node)),
                !.path = Append(@, t), !.h = Append(@, Hist("cmd", l, 0, 0, t, "", <<>>))]

DoPositional(st, t, rest) ==
  LET l == Top(st)
      nd == NodeAt(st, l)
      po == nd.posord
      np == st.lv[l].np
      have == np <= Len(po) /\ (rest \/ ~nd.fields[po[np]].last)
      f == nd.fields[po[np]]
      st1 == IF f.isvec THEN st ELSE [st EXCEPT !.lv[l].np = np + 1]
      st2 == Give(st1, [l |-> l, k |-> 1, i |-> po[np]], TRUE, t, Hist("pos", l, 1, po[np], <<>>, "", t))
  IN IF ~have
     THEN Fail(st, {ErrO(IF nd.hassub THEN "UnknownSubcommand" ELSE "Unexpected", <<>>, t)})
     ELSE IF st2.m # "fail" /\ f.greedy
     THEN [st2 EXCEPT !.m = "greedy", !.pend = [l |-> l, k |-> 1, i |-> po[np], nm |-> <<>>, sh |-> FALSE]]
     ELSE st2

DoTakeValue(st, t) ==
  LET r == st.pend
  IN Give([st EXCEPT !.m = "scan", !.pend = NoPend], r, TRUE, t, Hist("named", r.l, r.k, r.i, r.nm, "sep", t))

DoRefuseValue(st, t) == Fail(st, {ErrO("MissingValue", PendField(st).desc, <<>>)})

DoGreedy(st, t) ==
  LET r == st.pend
  IN Give(st, r, TRUE, t, Hist("pos", r.l, r.k, r.i, <<>>, "", t))

\* The machine as a function, for reasoning about other argvs.
Step(st, t) ==
  CASE G_Terminator(st, t) -> DoTerminator(st, t)
    [] G_Long(st, t) -> DoLong(st, t)
    [] G_Bundle(st, t) -> DoBundle(st, Tail(t), 1)
    [] G_EnterCommand(st, t) -> DoEnterCommand(st, t)
    [] G_Free(st, t) -> DoPositional(st, t, FALSE)
    [] G_TakeValue(st, t) -> DoTakeValue(st, t)
    [] G_RefuseValue(st, t) -> DoRefuseValue(st, t)
    [] G_Rest(st, t) -> DoPositional(st, t, TRUE)
    [] G_Greedy(st, t) -> DoGreedy(st, t)
    [] G_Dead(st, t) -> st

RECURSIVE RunFrom(_, _)
RunFrom(st, argv) == IF argv = <<>> THEN st ELSE RunFrom(Step(st, Head(argv)), Tail(argv))
Run(d, argv) == RunFrom(Init0(d), argv)

-----------------------------------------------------------------------------
(* Part 4: end of argv                                                     *)

IsSet(pv) == pv # Unset

\* Everything that is wrong with struct k of level l.  The order in which the
\* implementation looks at these is unspecified (and documented so): it may
\* report any one of them.
StructErrs(st, l, k) ==
  LET nd == RT[st.d].nodes[NodeAt(st, l).ss[k]]
      fs == nd.fields
      vs == st.lv[l].vals[k]
      N == 1..Len(fs)
      given == {i \in N : IsSet(vs[i])}
      hascmd == k = 1 /\ st.lv[l].c # 0
      total == Cardinality(given) + (IF hascmd THEN 1 ELSE 0)
  IN {ErrO("Exclusive", fs[i].desc, <<>>) : i \in {x \in given : fs[x].excl /\ total > 1}}
     \cup UNION {{ErrO("Requires", fs[j].desc, <<>>) : j \in {x \in N : (\E y \in 1..Len(fs[i].requires) : fs[i].requires[y] = x) /\ x \notin given}}
                  : i \in given}
     \cup {ErrO("Conflict", fs[i].desc, <<>>) : i \in {x \in given : \E y \in 1..Len(fs[x].confl) : fs[x].confl[y] \in given}}
     \cup {ErrO("Missing", fs[i].desc, <<>>) : i \in {x \in N : fs[x].req /\ x \notin given}}
     \cup (IF k = 1 /\ nd.hassub /\ ~nd.subopt /\ ~hascmd THEN {ErrO("MissingSubcommand", <<>>, <<>>)} ELSE {})

FinalErrs(st) == UNION {UNION {StructErrs(st, l, k) : k \in 1..Len(st.lv[l].vals)} : l \in 1..Len(st.lv)}

\* The value a field finally holds.
FinalVal(f, pv) ==
  LET dv == IF pv # Unset \/ f.dflt.m = "none" THEN pv
            ELSE IF f.dflt.m = "expr" THEN f.dflt.val
            ELSE LET s == Store(f, Unset, TRUE, f.dflt.v) IN s.v
  IN CASE f.kind = "bool" -> IF dv = Unset THEN [p |-> "V", v |-> <<Txt_false>>] ELSE dv
       [] f.kind = "value" -> dv
       [] f.kind \in {"option", "optopt"} -> IF dv = Unset THEN [p |-> "N", v |-> <<>>] ELSE dv
       [] f.kind = "vec" -> [p |-> "L", v |-> dv.v]
       [] f.kind = "optvec" -> IF dv = Unset THEN [p |-> "N", v |-> <<>>] ELSE [p |-> "L", v |-> dv.v]

RECURSIVE StructVal(_, _, _, _)
\* The value of struct k of level l; `kk` its position, sub-structs found by offset.
StructVal(st, l, k, sub) ==
  LET nd == RT[st.d].nodes[NodeAt(st, l).ss[k]]
  IN [f |-> [i \in 1..Len(nd.fields) |-> FinalVal(nd.fields[i], st.lv[l].vals[k][i])],
      fl |-> [j \in 1..Len(nd.flats) |-> StructVal(st, l, k + nd.flatoff[j] - 1, <<>>)],
      sub |-> sub]

RECURSIVE LevelVal(_, _)
LevelVal(st, l) ==
  StructVal(st, l, 1, IF st.lv[l].c = 0 THEN <<>>
                      ELSE <<[n |-> NodeAt(st, l).cmds[st.lv[l].c].id, v |-> LevelVal(st, l + 1)]>>)

\* The set of outcomes allowed if argv ends here.
Outcomes(st) ==
  IF st.m \in {"fail", "help"} THEN st.e
  ELSE IF st.m = "value" THEN {ErrO("MissingValue", PendField(st).desc, <<>>)}
  ELSE LET fe == FinalErrs(st) IN IF fe # {} THEN fe ELSE {OkO(LevelVal(st, 1))}

Alive(st) == st.m \in {"scan", "value", "rest", "greedy"}
AtRest(st) == st.m \in {"scan", "rest", "greedy"}   \* no value awaited, no error yet
=============================================================================
