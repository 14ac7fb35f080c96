------------------------------- MODULE SaveFS -------------------------------
(* Saving to a path when something goes wrong (C05).                        *)
(* One document, one directory:                                             *)
(*   dir.f : what is under the document's name     dir.b : under name + .bak*)
(*   dir.t : under further (temporary) names       dir.o : all other files  *)
(* Contents: "none", "part" (not a readable document), the version names of *)
(* complete documents ("w", "v0", "v1", ...), "bak" an older backup.        *)
(*   mem : version in memory    n : number of edits    cfg : the situation  *)
(* A "judge" operation gives the sequence of directories seen during the    *)
(* last save, each of which a crash at that instant would have left behind. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoDirS == [f |-> "none", b |-> "none", t |-> <<>>, o |-> <<>>]
SaveFSNull == [dir |-> NoDirS, begin |-> NoDirS, n |-> 0, mem |-> "v0", cfg |-> [kind |-> "pkg", src |-> "self", backup |-> TRUE]]
SOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
Elems(seq) == { seq[i] : i \in 1..Len(seq) }
Held(d) == {d.f, d.b} \cup Elems(d.t)
Complete(x) == x \notin {"none", "part"}
Version(n) == "v" \o ToString(n)
(* The directories a save may leave behind or pass through: a complete old *)
(* or new version is there, and nobody else's file has changed.            *)
Keep(d0, mem) == {mem} \cup (IF d0.f # "none" THEN {d0.f} ELSE { x \in {d0.b} \cup Elems(d0.t) : Complete(x) /\ x # "bak" })
Nothing(d0) == d0.f = "none" /\ { x \in {d0.b} \cup Elems(d0.t) : Complete(x) /\ x # "bak" } = {}
Safe(d0, mem, d) == d.o = d0.o /\ (Nothing(d0) \/ Held(d) \cap Keep(d0, mem) # {})
Backs(s) == s.cfg.backup /\ s.cfg.kind # "bytes" /\ s.dir.f # "none"
Done(s) == [s.dir EXCEPT !.f = s.mem, !.b = IF Backs(s) THEN s.dir.f ELSE @]
\* faults: "none"; while writing: "space" "open" "read" "poison" "listen"; while names are changed: "rename" "remove"; "interrupt" anywhere
Writing == {"space", "open", "read", "poison", "listen"}
Swapping == {"rename", "remove"}
Between(s) == { d \in { [s.dir EXCEPT !.f = x, !.b = y, !.t = z] : x \in {s.dir.f, "none", s.mem}, y \in {s.dir.b, "none", s.dir.f},
                                                                   z \in {s.dir.t, Append(s.dir.t, s.mem)} } : Safe(s.dir, s.mem, d) }
Broken(s) == { d \in { [s.dir EXCEPT !.f = x, !.b = y, !.t = z] : x \in {s.dir.f, "none", "part", s.mem}, y \in {s.dir.b, "none", "part", s.dir.f},
                                                                  z \in {s.dir.t, Append(s.dir.t, "part"), Append(s.dir.t, s.mem)} } : Safe(s.dir, s.mem, d) }
Left(s, k) == IF k \in Writing THEN {s.dir} ELSE IF k \in Swapping THEN Between(s) ELSE Broken(s)
SaveFSSave(s, k) ==
    { SOut("ok", [hit |-> h], [s EXCEPT !.dir = Done(s), !.begin = s.dir]) : h \in IF k = "none" THEN {FALSE} ELSE {TRUE, FALSE} }
    \cup (IF k = "none" THEN {} ELSE { SOut("err", [hit |-> TRUE], [s EXCEPT !.dir = d, !.begin = s.dir]) : d \in Left(s, k) })
SaveFSApply(s, op) ==
  CASE op.a = "init" -> { SOut("ok", <<>>, [dir |-> op.dir, begin |-> op.dir, n |-> 0, mem |-> "v0", cfg |-> op.cfg]) }
    [] op.a = "edit" -> { SOut("ok", <<>>, [s EXCEPT !.n = @ + 1, !.mem = Version(s.n + 1)]) }
    [] op.a = "backup" -> { SOut("ok", <<>>, [s EXCEPT !.cfg.backup = op.b]) }
    [] op.a = "save" -> SaveFSSave(s, op.fault.k)
    [] op.a = "judge" -> { SOut(IF \A i \in 1..Len(op.ins) : Safe(s.begin, s.mem, op.ins[i]) THEN "ok" ELSE "lost", <<>>, s) }
    [] OTHER -> {}
=============================================================================
