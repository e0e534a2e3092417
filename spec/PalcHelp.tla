------------------------------ MODULE PalcHelp ------------------------------
(***************************************************************************)
(* What the help of a command shows.  A help text is compared line by line *)
(* after normalisation (blank lines dropped, runs of blanks collapsed), so *)
(* layout is free and content, grouping and order are not.                 *)
(*                                                                         *)
(* The expected help is a sequence of LINES, each tagged with where it     *)
(* comes from:  s  section: about usage cmds args opts after               *)
(*              r  role in the section: head entry doc default             *)
(*              k, i  the struct (position in Structs) and field, or the   *)
(*                    command number in i                                  *)
(*              t  the text                                                *)
(***************************************************************************)
EXTENDS PalcProps

Nl == "u000A"
Blank == {" ", "u0009", "u000A", "u000B", "u000C", "u000D"}
\* what Rust's trim_ascii strips (vertical tab is not in it)
AsciiWs == {" ", "u0009", "u000A", "u000C", "u000D"}

RECURSIVE TrimL(_, _)
TrimL(s, ws) == IF s # <<>> /\ Head(s) \in ws THEN TrimL(Tail(s), ws) ELSE s
RECURSIVE TrimR(_, _)
TrimR(s, ws) == IF s # <<>> /\ s[Len(s)] \in ws THEN TrimR(SubSeq(s, 1, Len(s) - 1), ws) ELSE s
TrimA(s) == TrimR(TrimL(s, AsciiWs), AsciiWs)

\* One line: blanks trimmed at both ends, inner runs collapsed.
Squeeze(s) ==
  LET keep == SelectSeq([i \in 1..Len(s) |-> i],
                LAMBDA i : s[i] \notin Blank \/ (i > 1 /\ s[i - 1] \notin Blank))
      t == [x \in 1..Len(keep) |-> IF s[keep[x]] \in Blank THEN " " ELSE s[keep[x]]]
  IN TrimR(t, {" "})

NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
NormLines(text) == LET ls == SplitAt(text, Nl) IN NonEmpty([i \in 1..Len(ls) |-> Squeeze(ls[i])])

\* ---- doc comments: the lines of a paragraph are joined, paragraphs kept apart ----
RECURSIVE DocJoin(_, _)
DocJoin(acc, lines) ==
  IF lines = <<>> THEN acc
  ELSE LET l == TrimA(Head(lines))
           endsNl == acc # <<>> /\ acc[Len(acc)] = Nl
       IN DocJoin(IF l = <<>> THEN (IF endsNl THEN acc ELSE Append(acc, Nl))
                  ELSE (IF acc # <<>> /\ ~endsNl THEN Append(acc, " ") ELSE acc) \o l,
                  Tail(lines))
DocText(lines) == TrimR(DocJoin(<<>>, lines), AsciiWs)

PkgDescription == <<"p","a","c","k","a","g","e"," ","d","e","s","c","r","i","p","t","i","o","n"," ","t","e","x","t">>

Src(d, n) == Defs[d].nodes[n]
About(d, n) == LET x == Src(d, n).labout
               IN IF x.m = "exp" THEN x.v ELSE IF x.m = "inh" THEN PkgDescription ELSE DocText(Src(d, n).about)
AfterText(d, n) == IF Src(d, n).after.m = "exp" THEN Src(d, n).after.v ELSE <<>>
FirstLine(t) == LET k == IndexFrom(t, Nl, 1) IN IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1)

\* ---- entries ----
Ln(s, r, k, i, t) == [s |-> s, r |-> r, k |-> k, i |-> i, t |-> t]
Tagged(s, r, k, i, ls) == [x \in 1..Len(ls) |-> Ln(s, r, k, i, ls[x])]

T_default == <<"[","d","e","f","a","u","l","t",":"," ">>
DefaultShown(f) ==
  IF f.dflt.m = "str" THEN f.dflt.v
  ELSE IF f.ty.k = "enum" THEN LET x == CHOOSE y \in 1..Len(f.ty.en) : f.ty.en[y].id = f.dflt.val.v[1] IN f.ty.en[x].n
  ELSE f.dflt.disp

EntryLines(s, k, i, f) ==
  Tagged(s, "entry", k, i, NormLines(f.desc))
  \o Tagged(s, "doc", k, i, NormLines(DocText(f.doc)))
  \o (IF f.dflt.m = "none" THEN <<>> ELSE Tagged(s, "default", k, i, NormLines(T_default \o DefaultShown(f) \o <<"]">>)))

\* The visible fields of command n, direct ones first, then the flattened groups;
\* the positional ones of a struct in binding order.
FieldsOf(d, n, k) == RT[d].nodes[RT[d].nodes[n].ss[k]].fields
SectionFields(d, n, isnamed) ==
  Flat([k \in 1..Len(RT[d].nodes[n].ss) |->
     LET fs == FieldsOf(d, n, k)
         order == IF isnamed THEN SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : fs[i].named)
                  ELSE RT[d].nodes[RT[d].nodes[n].ss[k]].posord
         vis == SelectSeq(order, LAMBDA i : ~fs[i].hide)
     IN [x \in 1..Len(vis) |-> [k |-> k, i |-> vis[x], f |-> fs[vis[x]]]]])

Section(d, n, isnamed, s, banner) ==
  LET es == SectionFields(d, n, isnamed)
      body == Flat([x \in 1..Len(es) |-> EntryLines(s, es[x].k, es[x].i, es[x].f)])
  IN IF es = <<>> THEN <<>> ELSE <<Ln(s, "head", 0, 0, banner)>> \o body

\* ---- the usage line ----
InUsage(f) == f.req \/ (~f.named /\ (f.isvec \/ f.last))
UsageDesc(f) ==
  IF f.named /\ PrimShort(f) # <<>> /\ PrimLong(f) # <<>> THEN From(f.desc, 5) ELSE f.desc
UsageItem(f) ==
  IF ~f.last THEN <<" ">> \o UsageDesc(f)
  ELSE IF f.req THEN <<" ", "-", "-", " ">> \o UsageDesc(f)
  ELSE <<" ", "[", "-", "-", " ">> \o UsageDesc(f) \o <<"]">>
UsageItems(d, n, isnamed) ==
  LET es == SelectSeq(SectionFields(d, n, isnamed), LAMBDA e : InUsage(e.f))
  IN Flat([x \in 1..Len(es) |-> UsageItem(es[x].f)])

W_usage == <<"U","s","a","g","e",":">>
W_options == <<" ","[","O","P","T","I","O","N","S","]">>
W_ocmd == <<" ","[","C","O","M","M","A","N","D","]">>
W_cmd == <<" ","<","C","O","M","M","A","N","D",">">>
B_cmds == <<"C","o","m","m","a","n","d","s",":">>
B_args == <<"A","r","g","u","m","e","n","t","s",":">>
B_opts == <<"O","p","t","i","o","n","s",":">>

HasOptional(d, n) == \E x \in 1..Len(SectionFields(d, n, TRUE)) : ~SectionFields(d, n, TRUE)[x].f.req

UsageText(d, n, prog, path) ==
  W_usage \o <<" ">> \o prog \o Flat([i \in 1..Len(path) |-> <<" ">> \o path[i]])
  \o UsageItems(d, n, TRUE)
  \o (IF HasOptional(d, n) THEN W_options ELSE <<>>)
  \o UsageItems(d, n, FALSE)
  \o (IF RT[d].nodes[n].hassub /\ RT[d].nodes[n].cmds # <<>> THEN (IF RT[d].nodes[n].subopt THEN W_ocmd ELSE W_cmd) ELSE <<>>)

\* ---- the list of commands ----
CmdLines(d, n) ==
  LET cs == RT[d].nodes[n].cmds
  IN IF cs = <<>> THEN <<>>
     ELSE <<Ln("cmds", "head", 0, 0, B_cmds)>>
          \o Flat([c \in 1..Len(cs) |->
                Tagged("cmds", "entry", 0, c, <<Squeeze(cs[c].n \o <<" ">> \o FirstLine(About(d, cs[c].node)))>>)])

\* ---- everything ----
HelpLines(d, n, prog, path) ==
  Tagged("about", "doc", 0, 0, NormLines(About(d, n)))
  \o Tagged("usage", "entry", 0, 0, NormLines(UsageText(d, n, prog, path)))
  \o CmdLines(d, n)
  \o Section(d, n, FALSE, "args", B_args)
  \o Section(d, n, TRUE, "opts", B_opts)
  \o Tagged("after", "doc", 0, 0, NormLines(AfterText(d, n)))

-----------------------------------------------------------------------------
(* What HelpLines has to satisfy (stated without reference to how it is    *)
(* built).                                                                 *)

\* each visible argument has exactly one entry, in the section of its kind; hidden ones none
EntriesExact(d, n, hl) ==
  \A k \in 1..Len(RT[d].nodes[n].ss) : \A i \in 1..Len(FieldsOf(d, n, k)) :
    LET f == FieldsOf(d, n, k)[i]
        mine == {x \in 1..Len(hl) : hl[x].k = k /\ hl[x].i = i}
        ent == {x \in mine : hl[x].r = "entry"}
    IN IF f.hide THEN mine = {}
       ELSE /\ Cardinality(ent) = 1
            /\ \A x \in mine : hl[x].s = (IF f.named THEN "opts" ELSE "args")
            \* its doc and default follow its entry immediately
            /\ \A x \in mine : \A y \in ent : x >= y /\ \A z \in y..x : z \in mine
\* the entry shows exactly the primary names; a hidden argument's description appears in no entry
\* direct arguments before flattened ones, declaration order within a struct (named ones)
OrderExact(hl) ==
  \A x, y \in 1..Len(hl) : x < y /\ hl[x].r = "entry" /\ hl[y].r = "entry" /\ hl[x].s = hl[y].s /\ hl[x].s \in {"opts", "args"}
     => hl[x].k < hl[y].k \/ (hl[x].k = hl[y].k /\ (hl[x].s = "opts" => hl[x].i < hl[y].i))
CommandsExact(d, n, hl) ==
  \A c \in 1..Len(RT[d].nodes[n].cmds) :
     Cardinality({x \in 1..Len(hl) : hl[x].s = "cmds" /\ hl[x].r = "entry" /\ hl[x].i = c}) = 1
OneUsage(hl) == Cardinality({x \in 1..Len(hl) : hl[x].s = "usage"}) = 1
SectionOrder == <<"about", "usage", "cmds", "args", "opts", "after">>
SectNo(s) == CHOOSE x \in 1..6 : SectionOrder[x] = s
SectionsOrdered(hl) == \A x, y \in 1..Len(hl) : x < y => SectNo(hl[x].s) <= SectNo(hl[y].s)
HelpTheorem(d, n, hl) ==
  EntriesExact(d, n, hl) /\ OrderExact(hl) /\ CommandsExact(d, n, hl) /\ OneUsage(hl) /\ SectionsOrdered(hl)

\* The help and the parser agree: the name an entry shows denotes, in that command,
\* an argument with that very description - or one declared earlier that has the same name.
ShownNamesWork(d, n) ==
  LET es == SectionFields(d, n, TRUE)
      st == [Init0(d) EXCEPT !.lv = <<NewLevel(d, n)>>]
  IN \A x \in 1..Len(es) :
       LET r == Search(st, es[x].f.names[1])
       IN r.l = 1 /\ (r.k < es[x].k \/ (r.k = es[x].k /\ r.i = es[x].i))
=============================================================================
