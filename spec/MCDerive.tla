------------------------------ MODULE MCDerive ------------------------------
(***************************************************************************)
(* Definitions under edit.  The machine starts from well-formed seed       *)
(* definitions; each action is one edit a programmer could make to the     *)
(* source.  Every reachable definition is classified by PalcDerive and     *)
(* printed with its verdict; the real derive macros then have to accept    *)
(* exactly the well-formed ones.                                           *)
(***************************************************************************)
EXTENDS PalcDerive, TLCExt

VARIABLES sed, dfd, edn
dvars == <<sed, dfd, edn>>

T1(c) == <<c>>
Exp(v) == [m |-> "exp", v |-> v]
No == [m |-> "no", v |-> <<>>]
Inh == [m |-> "inh", v |-> <<>>]
Ctl == <<"a", "u0009">>

\* ---- pools ----
OtherLongs(nd) == {PrimLong(nd.fields[i])[1] : i \in {x \in 1..Len(nd.fields) : PrimLong(nd.fields[x]) # <<>>}}
                  \cup UNION {SetOf(nd.fields[i].alias) : i \in 1..Len(nd.fields)}
OtherShorts(nd) == {PrimShort(nd.fields[i])[1] : i \in {x \in 1..Len(nd.fields) : PrimShort(nd.fields[x]) # <<>>}}
                   \cup UNION {SetOf(nd.fields[i].salias) : i \in 1..Len(nd.fields)}
LongPool(nd) == OtherLongs(nd) \cup {<<>>, <<"-">>, <<"-", "x">>, <<"a", "=">>, <<"=">>, Ctl, <<"u007F">>, <<"n", "e", "w">>, <<"n", "-", "-">>, <<" ">>, <<"u00E9">>, <<"h", "e", "l", "p">>, <<"u0085">>}
ShortPool(nd) == OtherShorts(nd) \cup {<<"-">>, <<"=">>, <<"u0000">>, <<"u007F">>, <<"u000A">>, <<"N">>, <<"u00E9">>, <<" ">>, <<"h">>, <<"u0085">>, <<",">>}
Types == SetOf(Input.types)
NoDflt == [m |-> "none", v |-> <<>>, val |-> [p |-> "U", v |-> <<>>], disp |-> <<>>]
Dflts == {NoDflt, [NoDflt EXCEPT !.m = "str", !.v = <<"1">>, !.disp = <<"1">>], [NoDflt EXCEPT !.m = "str", !.v = <<"x">>, !.disp = <<"x">>]}
DfltT(f) ==
  LET val == IF f.ty.k = "int" THEN <<"1">> ELSE IF f.ty.k = "enum" THEN (IF f.ty.vars = <<>> THEN <<>> ELSE f.ty.vars[1].id)
             ELSE IF f.kind = "bool" \/ f.ty.k = "bool" THEN Txt_true ELSE <<"x">>
  IN {[NoDflt EXCEPT !.m = "expr", !.val = [p |-> "V", v |-> <<val>>], !.disp = val], [NoDflt EXCEPT !.m = "both", !.v = <<"1">>, !.val = [p |-> "V", v |-> <<val>>]]}
Odd == SetOf(Input.odd)
Kinds == {"bool", "value", "option", "optopt", "vec", "optvec"}
BoolTy == CHOOSE t \in Types : t.k = "bool"

\* the text of a typed default belongs to its type
NoExpr(f) == IF f.dflt.m = "expr" THEN [f EXCEPT !.dflt = NoDflt] ELSE f
SetKind(f, k) == NoExpr(IF k = "bool" THEN [f EXCEPT !.kind = k, !.ty = BoolTy]
                        ELSE IF k = "value" /\ f.ty.k = "bool" THEN [f EXCEPT !.kind = "bool"]     \* the two are the same source text
                        ELSE [f EXCEPT !.kind = k])
SetTy(f, t) == NoExpr(IF f.kind = "bool" THEN f
                      ELSE IF f.kind = "value" /\ t.k = "bool" THEN [f EXCEPT !.kind = "bool", !.ty = t]
                      ELSE [f EXCEPT !.ty = t])

FieldEdits(nd, i) ==
  LET f == nd.fields[i] IN
  ({[f EXCEPT !.long = x] : x \in {No, Inh} \cup {Exp(v) : v \in LongPool(nd)}}
   \cup {[f EXCEPT !.short = x] : x \in {No, Inh} \cup {Exp(v) : v \in ShortPool(nd)}}
   \cup {[f EXCEPT !.alias = Append(@, v)] : v \in LongPool(nd)}
   \cup {[f EXCEPT !.salias = Append(@, v)] : v \in ShortPool(nd)}
   \cup {[f EXCEPT !.vname = x] : x \in {Exp(<<>>), Exp(<<"V">>), Exp(Ctl), Exp(<<"u007F">>), Exp(<<"u0085">>)}}
   \cup {SetKind(f, k) : k \in Kinds} \cup {SetTy(f, t) : t \in Types}
   \cup {[f EXCEPT !.reqeq = ~@], [f EXCEPT !.global = ~@], [f EXCEPT !.icase = ~@], [f EXCEPT !.last = ~@],
         [f EXCEPT !.trailing = ~@], [f EXCEPT !.required = ~@], [f EXCEPT !.excl = ~@], [f EXCEPT !.hide = ~@]}
   \cup {[f EXCEPT !.hy = x] : x \in {"none", "any", "num", "both"}}
   \cup {[f EXCEPT !.delim = x] : x \in {<<>>, <<",">>, <<"u00E9">>, <<"u0000">>}}
   \cup {[f EXCEPT !.dflt = x] : x \in Dflts \cup DfltT(f)}
   \cup {[f EXCEPT !.requires = Append(@, j)] : j \in 0..Len(nd.fields)}
   \cup {[f EXCEPT !.confl = Append(@, j)] : j \in 0..Len(nd.fields)}
   \cup {[f EXCEPT !.odd = Append(@, o)] : o \in Odd}
   \cup {[f EXCEPT !.id = <<"_", "_">>]}
   \* edits of an enum type
   \cup (IF f.ty.k # "enum" THEN {} ELSE
           {[f EXCEPT !.ty.rule = r] : r \in KnownRules \cup {"Kebab-case", "snake"}}
           \cup {[f EXCEPT !.ty.vars[v].nm = x] : v \in 1..Len(f.ty.vars),
                   x \in {No, Exp(<<>>), Exp(Ctl), Exp(<<"U", "p">>), Exp(<<"l", "o">>), Exp(<<"u00C9">>), Exp(<<"u0085">>), Exp(<<"u007F">>)} \cup {Exp(EnumNames([f.ty EXCEPT !.rule = IF @ \in KnownRules THEN @ ELSE "lower"])[y]) : y \in 1..Len(f.ty.vars)}}
           \cup {[f EXCEPT !.ty.vars = <<>>]})) \ {f}

Swap2(q, i) == [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
\* references are by position: an edit that moves fields must not be confused by them
NoRefs(nd) == \A i \in 1..Len(nd.fields) : nd.fields[i].requires = <<>> /\ nd.fields[i].confl = <<>>

\* Sampling: of the definitions with one edit one in `one` is looked at, of those
\* with more edits one in `every` (chosen by the fingerprint of the definition).
Chosen(df, k, sd) == LET m == IF k = 0 THEN 1 ELSE IF k = 1 THEN Input.one[sd] ELSE Input.every
                     IN (TLCFP(<<df, Input.salt>>) % m) = 0
\* Only well-formed definitions are edited further: what one more edit breaks is then not
\* hidden behind what an earlier one broke.
Room == edn < Input.budget[sed] /\ (edn = 0 \/ (TLCFP(<<dfd, Input.salt, 1>>) % Input.branch = 0 /\ WellFormed(dfd)))

Put(n, nd) == /\ dfd' = [dfd EXCEPT !.nodes[n] = nd]
              /\ edn' = edn + 1 /\ UNCHANGED sed
Nd(n) == dfd.nodes[n]

EditField(n) == \E i \in 1..Len(Nd(n).fields) : \E g \in FieldEdits(Nd(n), i) : Put(n, [Nd(n) EXCEPT !.fields[i] = g])
SwapFields(n) == NoRefs(Nd(n)) /\ \E i \in 1..(Len(Nd(n).fields) - 1) : Put(n, [Nd(n) EXCEPT !.fields = Swap2(@, i)])
DropFields(n) == NoRefs(Nd(n)) /\ Nd(n).fields # <<>> /\ \E q \in {Tail(Nd(n).fields), <<>>} : Put(n, [Nd(n) EXCEPT !.fields = q])
\* the last field moves to the front
Rotate(n) == NoRefs(Nd(n)) /\ Len(Nd(n).fields) > 2 /\ Put(n, [Nd(n) EXCEPT !.fields = <<@[Len(@)]>> \o SubSeq(@, 1, Len(@) - 1)])
\* a copy of a field under another identifier, behind or before all the others
Copy(f) == [f EXCEPT !.id = @ \o <<"_", "2">>]
CopyField(n) == \E i \in 1..Len(Nd(n).fields) :
                   \/ Put(n, [Nd(n) EXCEPT !.fields = Append(@, Copy(@[i]))])
                   \/ NoRefs(Nd(n)) /\ Put(n, [Nd(n) EXCEPT !.fields = <<Copy(@[i])>> \o @])
FlattenMore(n) == \E m \in {x \in 1..Len(dfd.nodes) : x > n} : \/ Put(n, [Nd(n) EXCEPT !.flats = Append(@, m)])
                                                               \/ Put(n, [Nd(n) EXCEPT !.flats = <<m>> \o @])
Unflatten(n) == Nd(n).flats # <<>> /\ Put(n, [Nd(n) EXCEPT !.flats = Tail(@)])
EditCommands(n) ==
  /\ Nd(n).sub.has
  /\ \/ Put(n, [Nd(n) EXCEPT !.sub.extra = 1])
     \/ Put(n, [Nd(n) EXCEPT !.sub.opt = ~@])
     \/ Put(n, [Nd(n) EXCEPT !.sub.cmds = <<>>])
     \/ /\ Nd(n).sub.cmds # <<>>
        /\ \E x \in {UpperU(Nd(n).sub.cmds[1].id), Nd(n).sub.cmds[Len(Nd(n).sub.cmds)].id \o <<"_">>, Nd(n).sub.cmds[1].id \o <<"2">>, <<"H", "e", "l", "p">>} :
             Put(n, [Nd(n) EXCEPT !.sub.cmds = Append(@, [id |-> x, node |-> @[1].node])])
     \* one more command whose name is spelt like that of any other, before or behind
     \/ \E i \in 1..Len(Nd(n).sub.cmds) :
          LET c == Nd(n).sub.cmds[i] IN
          \E x \in {c.id \o <<"_">>, <<"_">> \o c.id, c.id \o <<"Z">>} :
             \/ Put(n, [Nd(n) EXCEPT !.sub.cmds = <<[c EXCEPT !.id = x]>> \o @])
             \/ Put(n, [Nd(n) EXCEPT !.sub.cmds = Append(@, [c EXCEPT !.id = x])])
Pad(n) == \E x \in {1} \cup (IF Len(dfd.nodes) = 1 THEN {253 - Len(Nd(n).fields), 254 - Len(Nd(n).fields), 255 - Len(Nd(n).fields)} ELSE {}) : Put(n, [Nd(n) EXCEPT !.pad = x])

Init == /\ sed \in 1..Len(Defs) /\ dfd = Defs[sed] /\ edn = 0
Next == /\ Room
        /\ \E n \in Nodes(dfd) : EditField(n) \/ SwapFields(n) \/ Rotate(n) \/ DropFields(n) \/ CopyField(n) \/ FlattenMore(n)
                                 \/ Unflatten(n) \/ EditCommands(n) \/ Pad(n)
Spec == Init /\ [][Next]_dvars

\* Identifiers have to be distinct for reasons of Rust, not of palc.
RustOk(df) ==
  \A n \in Nodes(df) :
     /\ \A i, j \in 1..Len(df.nodes[n].fields) : i # j => df.nodes[n].fields[i].id # df.nodes[n].fields[j].id
     /\ \A i, j \in 1..Len(df.nodes[n].sub.cmds) : i # j => df.nodes[n].sub.cmds[i].id # df.nodes[n].sub.cmds[j].id
\* Theorems (of well-formed definitions): what being well-formed is good for.
\* In a well-formed struct a name denotes at most one argument ...
I_NamesUnique == \A n \in Nodes(dfd) : LET fs == dfd.nodes[n].fields IN
                    \A i, j \in 1..Len(fs) : i # j => {NameSeq(fs[i])[x] : x \in 1..Len(NameSeq(fs[i]))} \cap {NameSeq(fs[j])[x] : x \in 1..Len(NameSeq(fs[j]))} = {}
\* ... every name can be written on a command line: it is split back into exactly itself ...
I_NamesUsable == \A n \in Nodes(dfd) : \A i \in 1..Len(dfd.nodes[n].fields) :
                    \A nm \in SetOf(NameSeq(dfd.nodes[n].fields[i])) :
                       IF Len(nm) = 1 THEN nm[1] \notin {"-", "="} ELSE T_long(nm) /\ IndexFrom(nm, "=", 1) = 0
\* ... the positional arguments are bound in declaration order ...
I_PositionalOrder == \A n \in Nodes(dfd) : LET fs == dfd.nodes[n].fields IN
                    SelectSeq(PosOrder(fs), LAMBDA i : ~fs[i].last) = SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~IsNamed(fs[i]) /\ ~fs[i].last)
\* ... and descriptions are free of control characters, whatever the names.
I_DescClean == \A n \in Nodes(dfd) : \A i \in 1..Len(dfd.nodes[n].fields) : ~HasControl(Desc(dfd.nodes[n].fields[i]))
\* One invariant, so that a definition is judged once: the theorems, and the printed verdict
\* (the printing is always true).
I_Judge ==
  Chosen(dfd, edn, sed) =>
    LET viol == Violated(dfd) IN
    /\ viol = {} => (I_NamesUnique /\ I_NamesUsable /\ I_PositionalOrder /\ I_DescClean)
    /\ (RustOk(dfd) /\ ~Grey(dfd)) => PrintT("ROW " \o ToJson(<<sed, edn, dfd, viol>>))
=============================================================================
