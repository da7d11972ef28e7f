----------------------------- MODULE SkopsParser -----------------------------
(* Parsing a pandoc document into a card (C15).                               *)
(*                                                                            *)
(* A document is a sequence of items:                                         *)
(*   [t |-> "H", lvl, inl]   header of level lvl with inline elements inl     *)
(*   [t |-> "B", txt]        any other block; txt is its markdown on its own  *)
(* State: the levels of the current header and its ancestors (`stack`) and    *)
(* the sections so far in document order, [d: depth, title, c: content].      *)
(* Depths in document order determine the nesting.                            *)
EXTENDS SkopsCard

NBSP == 160

RECURSIVE PopTo(_, _)
PopTo(stack, lvl) ==
  IF stack # <<>> /\ stack[Len(stack)] >= lvl
  THEN PopTo(SubSeq(stack, 1, Len(stack) - 1), lvl) ELSE stack

\* the markdown source of a header's text on one line
RECURSIVE EscBsl(_)
EscBsl(s) == IF s = <<>> THEN <<>>
             ELSE (IF s[1] = BSL THEN <<BSL, BSL>> ELSE <<s[1]>>) \o EscBsl(Tail(s))
RECURSIVE InlText(_)
Inner(x) == FlattenSeq([j \in DOMAIN x |-> InlText(x[j])])
InlText(e) ==
  CASE e.t = "Str" -> EscBsl(e.s)
    [] e.t \in {"Space", "SoftBreak", "LineBreak"} -> <<SP>>
    [] e.t = "Strong" -> <<42, 42>> \o Inner(e.x) \o <<42, 42>>
    [] e.t = "Emph" -> <<95>> \o Inner(e.x) \o <<95>>
    [] e.t = "Strikeout" -> <<126, 126>> \o Inner(e.x) \o <<126, 126>>
    [] e.t = "Code" -> <<96>> \o e.s \o <<96>>
    [] e.t = "RawInline" -> e.s
    [] e.t = "Link" -> <<91>> \o Inner(e.x) \o <<93, 40>> \o e.s \o <<41>>
    [] e.t = "Image" -> <<33, 91>> \o Inner(e.x) \o <<93, 40>> \o e.s \o <<41>>
    [] e.t = "DoubleQuote" -> <<34>> \o Inner(e.x) \o <<34>>
    [] e.t = "SingleQuote" -> <<39>> \o Inner(e.x) \o <<39>>
Title(inl) == LET s == Inner(inl) IN [j \in DOMAIN s |-> IF s[j] = NBSP THEN SP ELSE s[j]]

(* The markdown of an element, up to white space, the prefixes of quoted      *)
(* lines and the rules of tables. Elements: [t, ...]; e.x children, e.s text. *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE JoinWith(_, _)
JoinWith(sep, x) == IF x = <<>> THEN <<>> ELSE IF Len(x) = 1 THEN x[1]
                    ELSE x[1] \o sep \o JoinWith(sep, Tail(x))
QUOTE == 34
Attr(a) == \* [k, v]
  IF a.v = <<>> THEN a.k ELSE a.k \o <<61, QUOTE>> \o a.v \o <<QUOTE>>
OpenDiv(e) ==
  <<60, 100, 105, 118>>
  \o (IF e.id = <<>> THEN <<>> ELSE <<105, 100, 61, QUOTE>> \o e.id \o <<QUOTE>>)
  \o (IF e.classes = <<>> THEN <<>>
      ELSE <<99, 108, 97, 115, 115, 61, QUOTE>> \o JoinWith(<<SP>>, e.classes) \o <<QUOTE>>)
  \o FlattenSeq([j \in DOMAIN e.kvs |-> Attr(e.kvs[j])]) \o <<62>>
FENCE == <<96, 96, 96>>
RECURSIVE Md(_)
MdAll(x) == FlattenSeq([j \in DOMAIN x |-> Md(x[j])])
Md(e) ==
  CASE e.t \in {"Plain", "Para"} -> Inner(e.x)
    [] e.t = "CodeBlock" -> FENCE \o JoinWith(<<44>>, e.classes) \o e.s \o FENCE
    [] e.t = "RawBlock" -> e.s
    [] e.t = "BulletList" -> FlattenSeq([j \in DOMAIN e.items |-> <<45>> \o MdAll(e.items[j])])
    [] e.t = "OrderedList" ->
         FlattenSeq([j \in DOMAIN e.items |-> Dec(e.start + j - 1) \o <<46>> \o MdAll(e.items[j])])
    [] e.t = "BlockQuote" -> <<62>> \o MdAll(e.x)
    [] e.t = "Div" -> OpenDiv(e) \o MdAll(e.x) \o <<60, 47, 100, 105, 118, 62>>
    [] e.t = "Table" -> \* rows of cells, each a sequence of blocks; the first row is the header
         FlattenSeq([r \in DOMAIN e.rows |->
           FlattenSeq([c \in DOMAIN e.rows[r] |-> <<124>> \o MdAll(e.rows[r][c])]) \o <<124>>])
    [] OTHER -> InlText(e)

Blank(c) == c \in {9, 10, 13, SP, NBSP}
AlNum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ (c >= 128 /\ c # NBSP)
Ink(s) == SelectSeq(s, LAMBDA c : ~Blank(c))
Letters(s) == SelectSeq(s, AlNum)
RECURSIVE Within(_, _)  \* a is a subsequence of b
Within(a, b) == IF a = <<>> THEN TRUE ELSE IF Len(b) < Len(a) THEN FALSE
                ELSE IF a[1] = b[1] THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))
\* every piece of the element is there, once and in order, and nothing else that is not markup
SaysWhat(text, e) == Letters(text) = Letters(Md(e)) /\ Within(Ink(Md(e)), Ink(text))

AddText(c, txt) == IF c = <<>> THEN txt ELSE c \o <<NL, NL>> \o txt

\* [stack, secs, out] after one item
StepItem(st, item) ==
  IF st.out # "ok" THEN st
  ELSE IF item.t = "H" THEN
    LET s == Append(PopTo(st.stack, item.lvl), item.lvl) IN
    [stack |-> s, out |-> "ok",
     secs |-> Append(st.secs, [d |-> Len(s), title |-> Title(item.inl), c |-> <<>>])]
  ELSE IF st.secs = <<>> THEN [st EXCEPT !.out = "ValueError"]
  ELSE [st EXCEPT !.secs[Len(st.secs)].c = AddText(@, item.txt)]
St0 == [stack |-> <<>>, secs |-> <<>>, out |-> "ok"]

RECURSIVE Parse(_, _)
Parse(st, doc) == IF doc = <<>> THEN st ELSE Parse(StepItem(st, Head(doc)), Tail(doc))

\* rendering reproduces the outline
OutlinePats(secs) ==
  FlattenSeq([j \in DOMAIN secs |->
    <<Lit(<<>>)>> \o LitLines(Rep(HASH, secs[j].d) \o <<SP>> \o secs[j].title)
    \o <<Lit(<<>>)>> \o LitLines(secs[j].c)])
MatchOutline(secs, lines) ==
  LET ps == NormPats(OutlinePats(secs))
      ls == NormLines(lines)
  IN Len(ps) = Len(ls) /\ \A j \in DOMAIN ps : MatchLine(ps[j], ls[j])
Outline(secs) == [j \in DOMAIN secs |-> [d |-> secs[j].d, title |-> secs[j].title]]
=============================================================================
