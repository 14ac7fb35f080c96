---------------------------- MODULE SaveProtocol ----------------------------
(* The steps by which a save replaces a file, with a crash or an error at   *)
(* every one of them. TLC shows that this order of steps refines SaveFS:    *)
(* every directory on the way is Safe, and every end is one that SaveFS     *)
(* allows for that fault. The order which removes the old file before the   *)
(* new one is complete (Order = "inplace") is refuted.                      *)
EXTENDS SaveFS
CONSTANTS Order
VARIABLES s0, dir, pc, fault, fired
vars == <<s0, dir, pc, fault, fired>>
Starts == { [dir |-> [f |-> x, b |-> y, t |-> t, o |-> <<"junk">>], begin |-> NoDirS, n |-> 1, mem |-> "v1", cfg |-> [kind |-> k, src |-> "self", backup |-> b]] :
            x \in {"none", "w", "v0"}, y \in {"none", "bak", "v0"}, t \in { <<>>, <<"v0">> }, k \in {"pkg", "bytes", "flat"}, b \in BOOLEAN }
Init == /\ s0 \in Starts /\ dir = s0.dir /\ pc = (IF Order = "tmp" THEN "tell" ELSE "inplace") /\ fired = "none"
        /\ fault \in {"none"} \cup Writing \cup Swapping \cup {"interrupt"}
Tmp == Len(s0.dir.t) + 1
Go(d, p) == dir' = d /\ pc' = p /\ UNCHANGED <<s0, fault, fired>>
Err(k, d) == fault = k /\ dir' = d /\ pc' = "err" /\ fired' = k /\ UNCHANGED <<s0, fault>>
NoTmp == [dir EXCEPT !.t = s0.dir.t]
Tell == pc = "tell" /\ (Go(dir, "create") \/ Err("listen", dir))
Create == pc = "create" /\ (Go([dir EXCEPT !.t = Append(@, "part")], "write") \/ Err("open", dir))
Write == pc = "write" /\ (Go(dir, "copy") \/ Err("space", NoTmp) \/ Err("poison", NoTmp))
Copy == pc = "copy" /\ (Go([dir EXCEPT !.t[Tmp] = s0.mem], "swap") \/ Err("read", NoTmp) \/ Err("space", NoTmp))
Bk == s0.cfg.backup /\ s0.cfg.kind # "bytes"
Swap == pc = "swap" /\ Go(dir, IF dir.f = "none" THEN "final" ELSE IF ~Bk THEN "drop" ELSE IF dir.b # "none" THEN "unbak" ELSE "bak")
Unbak == pc = "unbak" /\ (Go([dir EXCEPT !.b = "none"], "bak") \/ Err("remove", dir))
Bak == pc = "bak" /\ (Go([dir EXCEPT !.b = dir.f, !.f = "none"], "final") \/ Err("rename", dir))
Drop == pc = "drop" /\ (Go([dir EXCEPT !.f = "none"], "final") \/ Err("remove", dir))
Final == pc = "final" /\ (Go([dir EXCEPT !.f = s0.mem, !.t = s0.dir.t], "ok") \/ Err("rename", dir))
\* the refuted order: the old file is truncated and written in place
InPlace == pc = "inplace" /\ (Go([dir EXCEPT !.f = "part"], "inplace2") \/ Err("open", dir))
InPlace2 == pc = "inplace2" /\ (Go([dir EXCEPT !.f = s0.mem], "ok") \/ Err("space", dir))
Stop == pc \notin {"ok", "err"} /\ fault = "interrupt" /\ fired = "none" /\ dir' = dir /\ pc' = "err" /\ fired' = "interrupt" /\ UNCHANGED <<s0, fault>>
Next == Tell \/ Create \/ Write \/ Copy \/ Swap \/ Unbak \/ Bak \/ Drop \/ Final \/ InPlace \/ InPlace2 \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AlwaysSafe == Safe(s0.dir, s0.mem, dir)
Outs == { [r |-> o.r, d |-> o.s.dir] : o \in SaveFSSave(s0, fired) }
Refines == pc \in {"ok", "err"} => [r |-> pc, d |-> dir] \in Outs
Ends == <>(pc \in {"ok", "err"})
=============================================================================
