------------------------------ MODULE SkopsCard ------------------------------
(* The model card as an insertion-ordered section tree (C09), its rendering   *)
(* and table of contents (C10) and the content builders (C14).                *)
(*                                                                            *)
(* Text is a sequence of Unicode code points.  A section is a record          *)
(*   k     key under which the parent stores it                               *)
(*   t     title                                                              *)
(*   c     content (description for plots and tables)                         *)
(*   v, f  visible, folded                                                    *)
(*   kind  "plain" | "plot" | "table"                                         *)
(*   alt, file       plots: alternative text and path                         *)
(*   head, rows      tables: column names and rows of cell texts              *)
(*   sub   subsections, in insertion order                                    *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

SLASH == 47
BSL   == 92
HASH  == 35
NL    == 10
CR    == 13
SP    == 32
PIPE  == 124

\* str.isspace(): what str.strip() removes
Space == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239,
          8287, 12288} \cup (8192..8202)

Rng(s) == {s[i] : i \in DOMAIN s}

(* ------------------------------ paths ------------------------------------- *)
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ Head(s) \in Space THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ s[Len(s)] \in Space
             THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))

\* positions of the slashes that separate parts: those not preceded by a backslash
Cuts(p) == {i \in DOMAIN p : p[i] = SLASH /\ (i = 1 \/ p[i-1] # BSL)}

RECURSIVE Unescape(_)
Unescape(s) ==
  IF Len(s) < 2 THEN s
  ELSE IF s[1] = BSL /\ s[2] = SLASH THEN <<SLASH>> \o Unescape(SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o Unescape(Tail(s))

RECURSIVE Pieces(_, _)
Pieces(p, start) ==
  LET c == {i \in Cuts(p) : i >= start} IN
  IF c = {} THEN <<SubSeq(p, start, Len(p))>>
  ELSE LET i == CHOOSE x \in c : \A y \in c : x <= y
       IN <<SubSeq(p, start, i - 1)>> \o Pieces(p, i + 1)

\* a path splits on unescaped '/', parts are stripped, and '\/' yields a slash
Split(p) == LET ps == Pieces(p, 1) IN [i \in DOMAIN ps |-> Unescape(Strip(ps[i]))]

(* ------------------------------ the tree ---------------------------------- *)
Plain(title, content, folded) ==
  [k |-> title, t |-> title, c |-> content, v |-> TRUE, f |-> folded,
   kind |-> "plain", sub |-> <<>>]

Idx(kids, name) == {i \in DOMAIN kids : kids[i].k = name}
Has(kids, name) == Idx(kids, name) # {}
At(kids, name)  == CHOOSE i \in Idx(kids, name) : TRUE

RECURSIVE Exists(_, _)
Exists(kids, parts) ==
  IF parts = <<>> THEN TRUE
  ELSE /\ Has(kids, Head(parts))
       /\ Exists(kids[At(kids, Head(parts))].sub, Tail(parts))

RECURSIVE Get(_, _)
Get(kids, parts) ==
  LET n == kids[At(kids, Head(parts))]
  IN IF Len(parts) = 1 THEN n ELSE Get(n.sub, Tail(parts))

\* add: missing ancestors appear with empty content at the end of their level; an existing
\* section keeps its position and its subsections
RECURSIVE Put(_, _, _)
Put(kids, parts, node) ==
  LET h == Head(parts) IN
  IF Len(parts) = 1 THEN
    IF Has(kids, h)
    THEN [kids EXCEPT ![At(kids, h)] = [node EXCEPT !.k = h, !.sub = kids[At(kids, h)].sub]]
    ELSE Append(kids, [node EXCEPT !.k = h])
  ELSE
    IF Has(kids, h)
    THEN [kids EXCEPT ![At(kids, h)].sub = Put(kids[At(kids, h)].sub, Tail(parts), node)]
    ELSE Append(kids, [Plain(h, <<>>, FALSE) EXCEPT !.sub = Put(<<>>, Tail(parts), node)])

RECURSIVE Del(_, _)
Del(kids, parts) ==
  LET i == At(kids, Head(parts)) IN
  IF Len(parts) = 1 THEN SubSeq(kids, 1, i - 1) \o SubSeq(kids, i + 1, Len(kids))
  ELSE [kids EXCEPT ![i].sub = Del(kids[i].sub, Tail(parts))]

\* in-place change of one field of an existing section
RECURSIVE Upd(_, _, _, _)
Upd(kids, parts, field, val) ==
  LET i == At(kids, Head(parts)) IN
  IF Len(parts) = 1 THEN [kids EXCEPT ![i] = [kids[i] EXCEPT ![field] = val]]
  ELSE [kids EXCEPT ![i].sub = Upd(kids[i].sub, Tail(parts), field, val)]

HasEmpty(parts) == \E i \in DOMAIN parts : parts[i] = <<>>
Leaf(parts) == parts[Len(parts)]

\* Reading or deleting the section named by `parts`: "ok", "KeyError" or, where the
\* documentation leaves it open (an empty ancestor name that really exists), "any".
Lookup(kids, parts) ==
  IF parts = <<>> \/ Leaf(parts) = <<>> THEN "KeyError"
  ELSE IF ~Exists(kids, parts) THEN "KeyError"
  ELSE IF HasEmpty(parts) THEN "any"
  ELSE "ok"

\* chained select: card.select(p1).select(p2)...
Flat(pathseq) == FlattenSeq([i \in DOMAIN pathseq |-> Split(pathseq[i])])
ChainLookup(kids, pathseq) ==
  LET splits == [i \in DOMAIN pathseq |-> Split(pathseq[i])]
      all == FlattenSeq(splits)
  IN IF \E i \in DOMAIN splits : Leaf(splits[i]) = <<>> THEN "KeyError"
     ELSE Lookup(kids, all)

(* what select exposes of a section, recursively *)
RECURSIVE View(_)
View(n) == [k |-> n.k, t |-> n.t, c |-> n.c, v |-> n.v, f |-> n.f, kind |-> n.kind,
            sub |-> [i \in DOMAIN n.sub |-> View(n.sub[i])]]
ViewAll(kids) == [i \in DOMAIN kids |-> View(kids[i])]

(* ------------------------------ rendering --------------------------------- *)
RECURSIVE Lines(_)
Lines(s) ==
  LET nl == {i \in DOMAIN s : s[i] = NL} IN
  IF nl = {} THEN <<s>>
  ELSE LET i == CHOOSE x \in nl : \A y \in nl : x <= y
       IN <<SubSeq(s, 1, i - 1)>> \o Lines(SubSeq(s, i + 1, Len(s)))

Rep(ch, n) == [i \in 1..n |-> ch]

\* expected output is a sequence of line patterns
Lit(l) == [p |-> "lit", s |-> l]
LitLines(s) == LET ls == Lines(s) IN [i \in DOMAIN ls |-> Lit(ls[i])]

DetOpen  == <<60,100,101,116,97,105,108,115,62>>                  \* <details>
DetSum   == <<60,115,117,109,109,97,114,121,62,32,67,108,105,99,107,32,116,111,32,101,120,
              112,97,110,100,32,60,47,115,117,109,109,97,114,121,62>>  \* <summary> Click to expand </summary>
DetClose == <<60,47,100,101,116,97,105,108,115,62>>               \* </details>
BR       == <<60,98,114,32,47,62>>                                \* <br />

Wrap(pats, folded) ==
  IF folded THEN <<Lit(DetOpen), Lit(DetSum), Lit(<<>>)>> \o pats
                 \o <<Lit(<<>>), Lit(DetClose)>>
  ELSE pats

\* line breaks inside a cell become <br />
RECURSIVE Cell(_)
Cell(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = CR /\ Len(s) >= 2 /\ s[2] = NL THEN BR \o Cell(SubSeq(s, 3, Len(s)))
  ELSE IF s[1] \in {CR, NL} THEN BR \o Cell(Tail(s))
  ELSE <<s[1]>> \o Cell(Tail(s))
Row(cells) == [p |-> "row", cells |-> [i \in DOMAIN cells |-> Cell(cells[i])]]

TablePats(n) ==
  <<Row(n.head), [p |-> "sep", n |-> Len(n.head)]>>
  \o [i \in DOMAIN n.rows |-> Row(n.rows[i])]

ImgPats(n) ==  \* ![alt](path)
  LitLines(<<33, 91>> \o (IF n.alt = <<>> THEN n.file ELSE n.alt) \o <<93, 40>> \o n.file
           \o <<41>>)

BodyPats(n) ==
  IF n.kind = "plain" THEN Wrap(LitLines(n.c), n.f)
  ELSE (IF n.c = <<>> THEN <<>> ELSE LitLines(n.c) \o <<Lit(<<>>)>>)
       \o Wrap(IF n.kind = "plot" THEN ImgPats(n) ELSE TablePats(n), n.f)

\* one heading per visible section without invisible or folded ancestor, in tree order
RECURSIVE Pats(_, _)
Pats(kids, depth) ==
  FlattenSeq([i \in DOMAIN kids |->
    LET n == kids[i] IN
    IF ~n.v THEN <<>>
    ELSE <<Lit(<<>>)>> \o LitLines(Rep(HASH, depth) \o <<SP>> \o n.t)
         \o <<Lit(<<>>)>> \o BodyPats(n)
         \o (IF n.f THEN <<>> ELSE Pats(n.sub, depth + 1))])

\* amount of blank space between blocks is not part of the property
IsBlankPat(p) == p.p = "lit" /\ p.s = <<>>
Squeeze(s, Blank(_)) ==
  LET keep == SelectSeq([i \in DOMAIN s |-> i],
                        LAMBDA i : ~Blank(s[i]) \/ (i > 1 /\ ~Blank(s[i-1])))
  IN [j \in DOMAIN keep |-> s[keep[j]]]
DropLastBlank(s, Blank(_)) ==
  IF s # <<>> /\ Blank(s[Len(s)]) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
NormPats(ps) == DropLastBlank(Squeeze(ps, IsBlankPat), IsBlankPat)
IsBlankLine(l) == l = <<>>
NormLines(ls) == DropLastBlank(Squeeze(ls, IsBlankLine), IsBlankLine)

\* "| cell | cell |" with any padding
RECURSIVE SkipSp(_, _)
SkipSp(l, i) == IF i <= Len(l) /\ l[i] = SP THEN SkipSp(l, i + 1) ELSE i
RECURSIVE TrimSpL(_)
TrimSpL(s) == IF s # <<>> /\ s[1] = SP THEN TrimSpL(Tail(s)) ELSE s
RECURSIVE TrimSpR(_)
TrimSpR(s) == IF s # <<>> /\ s[Len(s)] = SP THEN TrimSpR(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimSp(s) == TrimSpR(TrimSpL(s))
RECURSIVE RowFrom(_, _, _)
RowFrom(l, i, cells) ==
  IF i > Len(l) \/ l[i] # PIPE THEN FALSE
  ELSE IF cells = <<>> THEN i = Len(l)
  ELSE LET j == SkipSp(l, i + 1)
           c == TrimSp(Head(cells))
           e == j + Len(c)
       IN /\ e - 1 <= Len(l)
          /\ SubSeq(l, j, e - 1) = c
          /\ RowFrom(l, SkipSp(l, e), Tail(cells))

Count(l, ch) == Cardinality({i \in DOMAIN l : l[i] = ch})
MatchLine(p, l) ==
  CASE p.p = "lit" -> p.s = l
    [] p.p = "row" -> RowFrom(l, 1, p.cells)
    [] p.p = "sep" -> /\ Rng(l) \subseteq {PIPE, SP, 58, 45}
                      /\ Count(l, PIPE) = p.n + 1
MatchRender(kids, lines) ==
  LET ps == NormPats(Pats(kids, 1))
      ls == NormLines(lines)
  IN /\ Len(ps) = Len(ls)
     /\ \A i \in DOMAIN ps : MatchLine(ps[i], ls[i])

(* ------------------------------ table of contents ------------------------- *)
RECURSIVE TocLines(_, _)
TocLines(kids, level) ==
  FlattenSeq([i \in DOMAIN kids |->
    LET n == kids[i] IN
    IF ~n.v THEN <<>>
    ELSE <<Rep(SP, 2 * level) \o <<45, SP>> \o n.t>>
         \o (IF n.f THEN <<>> ELSE TocLines(n.sub, level + 1))])
RECURSIVE JoinNL(_)
JoinNL(ls) == IF ls = <<>> THEN <<>>
              ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<NL>> \o JoinNL(Tail(ls))
TocText(kids) == JoinNL(TocLines(kids, 0))

(* ------------------------------ UTF-8 ------------------------------------- *)
Utf8(ch) ==
  IF ch < 128 THEN <<ch>>
  ELSE IF ch < 2048 THEN <<192 + (ch \div 64), 128 + (ch % 64)>>
  ELSE IF ch < 65536 THEN <<224 + (ch \div 4096), 128 + ((ch \div 64) % 64), 128 + (ch % 64)>>
  ELSE <<240 + (ch \div 262144), 128 + ((ch \div 4096) % 64), 128 + ((ch \div 64) % 64),
         128 + (ch % 64)>>
Encode(s) == FlattenSeq([i \in DOMAIN s |-> Utf8(s[i])])

(* ------------------------------ builders (C14) ---------------------------- *)
PlotNode(title, desc, alt, file, folded) ==
  [k |-> title, t |-> title, c |-> desc, v |-> TRUE, f |-> folded, kind |-> "plot",
   alt |-> (IF alt = <<>> THEN title ELSE alt), file |-> file, sub |-> <<>>]
TableNode(title, desc, head, rows, folded) ==
  [k |-> title, t |-> title, c |-> desc, v |-> TRUE, f |-> folded, kind |-> "table",
   head |-> head, rows |-> rows, sub |-> <<>>]

\* metrics: first-seen order, latest value
RECURSIVE MergeMetrics(_, _)
MergeMetrics(ms, new) ==
  IF new = <<>> THEN ms
  ELSE LET n == Head(new)[1]
           at == {i \in DOMAIN ms : ms[i][1] = n}
       IN MergeMetrics(IF at = {} THEN Append(ms, Head(new))
                       ELSE [ms EXCEPT ![CHOOSE i \in at : TRUE] = Head(new)], Tail(new))
METRIC == <<77,101,116,114,105,99>>
VALUE  == <<86,97,108,117,101>>
HYPER  == <<72,121,112,101,114,112,97,114,97,109,101,116,101,114>>
MetricNode(title, desc, ms) == TableNode(title, desc, <<METRIC, VALUE>>, ms, FALSE)
HyperNode(title, desc, params) == TableNode(title, desc, <<HYPER, VALUE>>, params, TRUE)

\* several items passed in one call act like one call per item
RECURSIVE PutAll(_, _)
PutAll(kids, items) ==
  IF items = <<>> THEN kids
  ELSE PutAll(Put(kids, Head(items)[1], Head(items)[2]), Tail(items))
=============================================================================
