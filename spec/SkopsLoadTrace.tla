----------------------------- MODULE SkopsLoadTrace ----------------------------
(* Events recorded from real runs; one trace per archive.                     *)
(*  archive [proto, nodes, written]  the archive the next events are about    *)
(*  report  [via, ok, U]        get_untrusted_types; U: sequence of [n, r],   *)
(*                              r the rank of the name in sorted order        *)
(*  load    [via, T, out, missing, dig, fx]                                   *)
(*          out: ok, untrusted, raise; missing: the names in the exception    *)
(*  bool    [via, out]          trusted=True                                  *)
(*  inspect [fn, fx]            effects of an inspection                      *)
(*  use     [T, out, uses, fx, powerful]  uses: [how, names, fam] of what     *)
(*          loading used; powerful: names in T outside of all families        *)
(*  vis     [T, written, ok, exact, rows]  rows: [lv, self, safe, disp, node] *)
(*  print   [T, written, ok, show, colors, rows, src]  rows: the printed rows *)
(*          [lv, tag, safe, disp]; src: the rows handed to a sink             *)
(*  tree    [same]              the rows are those of the specification's tree *)
(*  disp    [kind, proto, reg, got, names]  the class that builds a kind      *)
(*  emit    [kind, reg]         a kind that dump emits                        *)
(*  old     [kind, what, out, same, finding]     an archive in an older layout*)
(*  accept  [kind, proto, n, accepted]  the names, of n, that the header of a  *)
(*          kind accepts by default                                           *)
(*  inner   [kind, name, fam, out]  a name within a string                    *)
(*  name    [kind, proto, slot, name, fam, reported, refused, resolves]       *)
EXTENDS SkopsLoad, SkopsRenderOps, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, ar, b, U, hist
Ev == Traces[t].ev[i + 1]
Clause(ok, name) == IF ok THEN {} ELSE {name}

ReportVerdict(e) ==
  LET names == {e.U[j].n : j \in DOMAIN e.U} IN
  IF ~e.ok THEN {}
  ELSE Clause(\A j \in 1..(Len(e.U) - 1) : e.U[j].r < e.U[j + 1].r, "report-sorted-duplicate-free")
       \cup Clause(~U.known \/ U.names = names, "report-same-via-data-and-file")

LoadVerdict(e) ==
  LET TT == ToSet(e.T)
      miss == U.names \ TT
  IN IF ~U.known THEN {}
     ELSE Clause((e.out = "untrusted") = (miss # {}), "verdict")
          \cup Clause(e.out # "untrusted" \/ ToSet(e.missing) = miss, "exception-names-the-missing")
          \cup Clause(\A h \in hist : (h.T \subseteq TT /\ h.written) =>
                         (e.out = "ok" /\ e.dig = h.dig), "enlarging-trusted-changes-result")

UseVerdict(e) ==
  LET TT == ToSet(e.T)
      bad == {j \in DOMAIN e.uses :
                /\ e.uses[j].fam \notin Families /\ ToSet(e.uses[j].names) \cap TT = {}
                \* what vouched code makes of its arguments is its own affair
                /\ ~(e.uses[j].made /\ e.powerful # <<>>)}
  IN UNION {{"used-" \o e.uses[j].how} : j \in bad}
     \cup Clause(e.fx = <<>> \/ e.powerful # <<>>, "effects-of-loading")

VisVerdict(e) ==
  LET TT == ToSet(e.T)
      rows == e.rows
      n == Len(rows)
      untrusted == U.names \ TT
      strict == {ar.nodes[k].name : k \in {k \in DOMAIN ar.nodes : ar.nodes[k].fam = "none"}}
      inside(k) == MustReport(ar.nodes, b, Reach(ar.nodes, b, Target(ar.nodes, b, k))) \ TT
  IN Clause(e.ok \/ ~e.written, "total")
     \cup (IF ~e.ok THEN {}
           ELSE IF ~WellFormed(rows) THEN {"well-formed"}
           ELSE
          Clause(\A j \in 1..n : ToSet(rows[j].disp) \cap untrusted \cap strict # {}
                         => ~rows[j].self /\ ~rows[j].safe, "untrusted-name-marked")
          \cup Clause(Marked(rows), "safe-row-above-unsafe-row")
          \cup Clause(\A j \in 1..n : (rows[j].safe /\ rows[j].node # 0) => inside(rows[j].node) = {},
                      "safe-row-contains-untrusted")
          \cup Clause(~U.known \/ (rows[1].safe = (untrusted = {})), "root-agrees-with-audit")
          \cup Clause(~e.exact \/ Exact(rows), "unsafe-row-without-untrusted"))

\* what is printed, compared with what is handed to the sink
PrintVerdict(e) ==
  LET TT == ToSet(e.T)
      rows == e.rows
      n == Len(rows)
      untrusted == U.names \ TT
      strict == {ar.nodes[k].name : k \in {k \in DOMAIN ar.nodes : ar.nodes[k].fam = "none"}}
      want == Show(e.src, e.show)
  IN Clause(e.ok \/ ~e.written, "total")
     \cup (IF ~e.ok THEN {}
           ELSE IF ~WellFormed(rows) THEN {"well-formed"}
           ELSE
          Clause(\A j \in 1..n : ToSet(rows[j].disp) \cap untrusted \cap strict # {} => rows[j].tag,
                 "untrusted-name-marked")
          \cup Clause(untrusted = {} => \A j \in 1..n : ~rows[j].tag, "tag-without-untrusted")
          \cup Clause((untrusted # {} /\ e.show # "trusted") => \E j \in 1..n : rows[j].tag,
                      "untrusted-archive-renders-safe")
          \cup Clause(~e.colors \/ (rows[1].safe = (untrusted = {})), "root-colour")
          \cup Clause(e.show = "trusted" \/ [j \in 1..n |-> [lv |-> rows[j].lv, self |-> ~rows[j].tag]]
                        = [j \in DOMAIN want |-> [lv |-> want[j].lv, self |-> want[j].self]],
                      "printed-rows-differ")
          \cup Clause(e.show # "trusted" \/ \A j \in 2..n : ~rows[j].tag, "untrusted-row-shown-as-trusted")
          \cup Clause(~e.colors \/ e.show = "trusted" \/ Len(want) # n \/
                      \A j \in 1..n : rows[j].safe => want[j].safe, "coloured-safe"))

DispVerdict(e) ==
  LET S == ToSet(e.reg) IN
  IF e.kind = "unknown" THEN Clause(e.out = "TypeError" /\ e.named, "unknown-kind-raises-TypeError")
  ELSE Clause(Registered(e.kind) \subseteq S, "loader-registered")
       \cup Clause(~HasLoader(S, e.proto) \/ e.got = Smallest(S, e.proto), "loader-of-smallest-protocol")

NameVerdict(e) ==
  IF e.fam \in Families THEN {}
  ELSE Clause(e.reported, "undocumented-name-not-reported")
       \cup Clause(e.refused, "undocumented-name-not-refused")

Verdict(e) ==
  CASE e.op = "archive" -> {}
    [] e.op = "report" -> ReportVerdict(e)
    [] e.op = "must" -> Clause(~U.known \/ MustReport(ar.nodes, b, DOMAIN ar.nodes) \subseteq U.names,
                              "undocumented-name-not-reported")
    [] e.op = "load" -> LoadVerdict(e)
    [] e.op = "bool" -> Clause(e.out # "ok", "trusted-True-accepted")
    [] e.op = "inspect" -> Clause(e.fx = <<>>, "inspection-" \o e.fn)
    [] e.op = "use" -> UseVerdict(e)
    [] e.op = "vis" -> VisVerdict(e)
    [] e.op = "print" -> PrintVerdict(e)
    [] e.op = "tree" -> Clause(e.same, "rows-of-the-tree")
    [] e.op = "disp" -> DispVerdict(e)
    [] e.op = "emit" -> Clause(Current \in ToSet(e.reg), "emitted-kind-has-no-loader")
    [] e.op = "old" -> Clause(e.out = "ok", "old-archive-loads") \cup Clause(e.out # "ok" \/ e.same, "old-archive-same-object")
    [] e.op = "name" -> NameVerdict(e)
    [] e.op = "accept" -> Clause(\A j \in DOMAIN e.accepted : e.accepted[j].fam \in Families,
                                 "undocumented-name-accepted")
    [] e.op = "inner" -> Clause(e.out = "ok" => e.fam \in Families, "undocumented-name-used")

NoArchive == [proto |-> Current, nodes |-> <<>>]
Unknown == [known |-> FALSE, names |-> {}]
TraceInit == /\ t \in DOMAIN Traces /\ i = 0 /\ ar = NoArchive /\ b = Built(<<>>)
             /\ U = Unknown /\ hist = {}
TraceNext ==
  /\ i < Len(Traces[t].ev) /\ i' = i + 1 /\ t' = t
  /\ ar' = (IF Ev.op = "archive" THEN [proto |-> Ev.proto, nodes |-> Ev.nodes] ELSE ar)
  /\ b' = (IF Ev.op = "archive" THEN Built(Ev.nodes) ELSE b)
  /\ U' = (IF Ev.op = "archive" THEN Unknown
           ELSE IF Ev.op = "report" /\ Ev.ok /\ ~U.known
                THEN [known |-> TRUE, names |-> {Ev.U[j].n : j \in DOMAIN Ev.U}] ELSE U)
  /\ hist' = (IF Ev.op = "archive" THEN {}
              ELSE IF Ev.op = "load" /\ Ev.out = "ok"
                   THEN hist \cup {[T |-> ToSet(Ev.T), dig |-> Ev.dig, written |-> Ev.stable]} ELSE hist)
  /\ LET bad == Verdict(Ev) IN
     bad # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i + 1, bad |-> bad]))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, i, ar, b, U, hist>>
=============================================================================
