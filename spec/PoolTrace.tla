----------------------------- MODULE PoolTrace -----------------------------
(* Checks recorded histories of descriptor pools against Pool: every         *)
(* addition, clone and inspection of the real pools is one transition.       *)
EXTENDS PoolObs, IOUtils, Json

Dir == IOEnv.VDIR
Shards == 32
Cases == ndJsonDeserialize(Dir \o "/cases.ndjson")

VARIABLES shard, ci, ei, pools
vars == <<shard, ci, ei, pools>>

(* ok = FALSE: the real pool accepted what it should not; nothing more is known *)
NewPool == [ok |-> TRUE, files |-> <<>>, facts |-> EmptyFacts]
Lost == [ok |-> FALSE, files |-> <<>>, facts |-> EmptyFacts]
Start == [i \in 0..5 |-> NewPool]
Out(x, v, bad) == [x |-> x, v |-> v, bad |-> bad]

(* source locations matter to reports about the batch at hand only *)
Bare(fs) == [i \in DOMAIN fs |-> [fs[i] EXCEPT !.locs = <<>>]]
Batch(c, e) == [i \in DOMAIN e.fs |-> c.files[e.fs[i]]]
AddEv(c, e) ==
    LET p == pools[e.p]
        b == Batch(c, e)
        r == AddBatch(p.files, b)
    IN IF e.q = "panic" THEN Out(e.p, Lost, <<"add.panic">>)
       ELSE IF ~p.ok THEN Out(e.p, p, <<>>)
       ELSE IF r.rules # <<>> THEN IF e.q = "ok" THEN Out(e.p, Lost, <<"add.accepted", r.rules[1].t>>)
                                   ELSE Out(e.p, p, IF \E i \in DOMAIN r.rules : ReportFits(r.rules[i], b, e.at) THEN <<>> ELSE <<"add.report." \o r.rules[1].t>>)
       ELSE IF e.q = "err" THEN Out(e.p, p, <<"add.refused">>)
       ELSE Out(e.p, IF r.same THEN p ELSE [ok |-> TRUE, files |-> Bare(r.files), facts |-> Facts(r.t)], <<>>)
Dispatch(c, e) ==
    CASE e.o = "crash" -> Out(0, pools[0], <<"crash">>)
      [] e.o = "add" -> AddEv(c, e)
      [] e.o = "junk" -> Out(e.p, pools[e.p], If(e.q = "err", "junk"))
      [] e.o = "new" -> Out(e.p, NewPool, <<>>)
      [] e.o = "clone" -> Out(e.p, pools[e.from], <<>>)
      [] e.o = "dump" -> Out(e.p, pools[e.p], IF pools[e.p].ok THEN DumpRes(c.dumps[e.d], pools[e.p].facts) ELSE <<>>)
      [] e.o = "held" -> Out(e.p, pools[e.p], IF pools[e.p].ok THEN HeldRes(c.dumps[e.d], pools[e.p].facts) ELSE <<>>)

Init == shard \in 1..Shards /\ ci = shard /\ ei = 1 /\ pools = Start
Next ==
    /\ ci <= Len(Cases)
    /\ shard' = shard
    /\ LET c == Cases[ci] IN
       IF ei > Len(c.ev)
       THEN /\ ci' = ci + Shards /\ ei' = 1 /\ pools' = Start
            /\ (IF ci + Shards > Len(Cases) THEN PrintT(<<"DONE", shard>>) ELSE TRUE)
       ELSE LET r == Dispatch(c, c.ev[ei]) IN
            /\ ci' = ci /\ ei' = ei + 1 /\ pools' = [pools EXCEPT ![r.x] = r.v]
            /\ (IF r.bad # <<>> THEN PrintT(<<"MISMATCH", c.id, ei, r.bad>>) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
