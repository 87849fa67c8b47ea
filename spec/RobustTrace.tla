---------------------------- MODULE RobustTrace ----------------------------
(* Sessions with hostile input.  A register holds what the last successful   *)
(* attempt produced; f is the name of all that a pool reports of itself.     *)
(* An attempt succeeds or fails, nothing else; a failed addition leaves the  *)
(* pool as it was; what an attempt produced can be used in every way; and a  *)
(* pool's encoding gives the same pool again.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Dir == IOEnv.VDIR
Shards == 32
Cases == ndJsonDeserialize(Dir \o "/cases.ndjson")

VARIABLES shard, ci, ei, regs
vars == <<shard, ci, ei, regs>>

Nothing == [have |-> FALSE, f |-> ""]
Start == [i \in 0..2 |-> Nothing]
If(c, tag) == IF c THEN <<>> ELSE <<tag>>
Some(f) == [have |-> TRUE, f |-> f]
Out(x, v, bad) == [x |-> x, v |-> v, bad |-> bad]

AddEv(r, e) ==
    IF e.q = "panic" THEN Out(e.x, Some(e.f), <<"panic.add">>)
    ELSE IF e.q = "err" THEN Out(e.x, r, If(e.f = r.f, "add.changed"))
    ELSE Out(e.x, Some(e.f), If(e.f # "panic", "panic.facts"))
AgainEv(e) ==
    IF e.q = "panic" THEN Out(e.x, Nothing, <<"panic.again">>)
    ELSE IF e.q = "err" THEN Out(e.x, Nothing, <<"again.refused">>)
    ELSE Out(e.x, Some(e.f), If(e.f = regs[e.y].f, "again.facts"))
Step(e) ==
    CASE e.o = "new" -> Out(e.x, Some(e.f), <<>>)
      [] e.o = "copy" -> Out(e.x, regs[e.from], <<>>)
      [] e.o = "try" /\ e.k = "add" -> AddEv(regs[e.x], e)
      [] e.o = "try" /\ e.k = "again" -> AgainEv(e)
      [] e.o = "try" -> Out(e.x, IF e.q = "ok" THEN Some("") ELSE regs[e.x], If(e.q \in {"ok", "err"}, "panic." \o e.k))
      [] e.o = "use" -> Out(e.x, regs[e.x], If(e.q = "ok", "panic." \o e.k) \o If(regs[e.x].have, "order"))
      [] OTHER -> Out(e.x, regs[e.x], <<"panic." \o e.o>>)

Init == shard \in 1..Shards /\ ci = shard /\ ei = 1 /\ regs = Start
Next ==
    /\ ci <= Len(Cases)
    /\ shard' = shard
    /\ LET c == Cases[ci] IN
       IF ei > Len(c.ev)
       THEN /\ ci' = ci + Shards /\ ei' = 1 /\ regs' = Start
            /\ (IF ci + Shards > Len(Cases) THEN PrintT(<<"DONE", shard>>) ELSE TRUE)
       ELSE LET r == Step(c.ev[ei]) IN
            /\ ci' = ci /\ ei' = ei + 1 /\ regs' = [regs EXCEPT ![r.x] = r.v]
            /\ (IF r.bad # <<>> THEN PrintT(<<"MISMATCH", c.id, ei, r.bad>>) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
