---------------------------- MODULE GlobalTrace ----------------------------
(* The global pool used by several threads at once.  A recorded history is a *)
(* sequence of invocations and responses (and of what threads saw in their   *)
(* own copies); it is accepted when every operation can be given a moment    *)
(* between its invocation and its response at which it happened as a whole   *)
(* (linearizability): an addition then succeeds exactly as Pool says for the *)
(* content of that moment, and a copy is what the pool was at its moment,    *)
(* whatever happens to the pool or to other copies later.                    *)
EXTENDS PoolObs, IOUtils, Json

Dir == IOEnv.VDIR
Cases == ndJsonDeserialize(Dir \o "/cases.ndjson")
Base == ndJsonDeserialize(Dir \o "/schemas.ndjson")[1].files
Show == "VAT" \in DOMAIN IOEnv
Threads == 0..3
Slots == 0..1

(* glob: indexes of the files added to the global pool, in order.            *)
(* pend: per thread, the event of the invocation that is not answered yet    *)
(* and whether it has happened.  copy, kept: the threads' copies and what    *)
(* they were before the first local addition.                                *)
VARIABLES ci, ei, glob, pend, copy, kept
vars == <<ci, ei, glob, pend, copy, kept>>

Idle == [e |-> 0, done |-> FALSE]
NoCopy == [have |-> FALSE, fs |-> <<>>]
FilesOf(c, g) == [i \in DOMAIN g |-> c.files[g[i]]]
Added(c, g, fs) == AddBatch(Base \o FilesOf(c, g), FilesOf(c, fs))
NewOf(c, g, fs) == LET names == {FName(Base[i]) : i \in DOMAIN Base} \cup {FName(c.files[g[i]]) : i \in DOMAIN g}
                   IN SelectSeq(fs, LAMBDA k : FName(c.files[k]) \notin names)
(* the content after an addition that the real pool answered with q; <<>> when the answer is wrong *)
After(c, g, fs, q) ==
    LET r == Added(c, g, fs) IN
    CASE r.rules = <<>> /\ q = "ok" -> << g \o NewOf(c, g, fs) >>
      [] r.rules # <<>> /\ q = "err" -> << g >>
      [] OTHER -> <<>>
(* what is reported of everything but the well-known files *)
FactsOf(c, g) == IF g = <<>> THEN EmptyFacts ELSE Facts(Tables(FilesOf(c, g)))
Sees(c, e, g) == c.dumps[e.d].t = "ok" /\ DumpRes(c.dumps[e.d], FactsOf(c, g)) = <<>>
SeesKept(c, e, g) == c.dumps[e.d].t = "ok" /\ HeldRes(c.dumps[e.d], FactsOf(c, g)) = <<>>

Init == /\ ci \in DOMAIN Cases /\ ei = 1 /\ glob = <<>>
        /\ pend = [t \in Threads |-> Idle]
        /\ copy = [t \in Threads |-> [s \in Slots |-> NoCopy]]
        /\ kept = [t \in Threads |-> [s \in Slots |-> NoCopy]]

(* an operation takes place; it is enough to consider moments just before an  *)
(* answer that is due, as nothing else depends on when it was              *)
Happen(t) ==
    LET c == Cases[ci] IN
    /\ ei <= Len(c.ev) /\ c.ev[ei].o = "ret" /\ ~pend[c.ev[ei].t].done
    /\ pend[t].e # 0 /\ ~pend[t].done
    /\ LET e == c.ev[pend[t].e] IN
       /\ pend' = [pend EXCEPT ![t].done = TRUE]
       /\ UNCHANGED <<ci, ei>>
       /\ CASE e.k = "add" -> /\ \E g \in SeqToSet(After(c, glob, e.fs, e.q)) : glob' = g
                              /\ UNCHANGED <<copy, kept>>
            [] e.k = "snap" -> /\ e.q = "ok"
                               /\ copy' = [copy EXCEPT ![t][e.s] = [have |-> TRUE, fs |-> glob]]
                               /\ kept' = [kept EXCEPT ![t][e.s] = NoCopy]
                               /\ UNCHANGED glob
            [] e.k = "junk" -> e.q = "err" /\ UNCHANGED <<glob, copy, kept>>
            [] e.k = "use" -> e.q = "ok" /\ UNCHANGED <<glob, copy, kept>>
Invoke(e) == /\ e.o = "inv" /\ pend' = [pend EXCEPT ![e.t] = [e |-> ei, done |-> FALSE]]
             /\ UNCHANGED <<glob, copy, kept>>
Answer(e) == /\ e.o = "ret" /\ pend[e.t].done /\ pend' = [pend EXCEPT ![e.t] = Idle]
             /\ UNCHANGED <<glob, copy, kept>>
(* a thread adds to its own copy *)
LocalAdd(c, e) ==
    /\ e.o = "local"
    /\ LET x == copy[e.t][e.s] IN
       /\ \E g \in SeqToSet(After(c, x.fs, e.fs, e.q)) : copy' = [copy EXCEPT ![e.t][e.s].fs = g]
       /\ kept' = [kept EXCEPT ![e.t][e.s] = IF kept[e.t][e.s].have THEN @ ELSE x]
       /\ UNCHANGED <<glob, pend>>
Look(c, e) == /\ e.o = "look"
              /\ (IF e.held THEN SeesKept(c, e, kept[e.t][e.s].fs) ELSE Sees(c, e, copy[e.t][e.s].fs))
              /\ UNCHANGED <<glob, pend, copy, kept>>
End(c, e) == e.o = "end" /\ Sees(c, e, glob) /\ UNCHANGED <<glob, pend, copy, kept>>
(* the next event of the record *)
Observe ==
    LET c == Cases[ci] IN
    /\ ei <= Len(c.ev)
    /\ LET e == c.ev[ei] IN
       /\ (Invoke(e) \/ Answer(e) \/ LocalAdd(c, e) \/ Look(c, e) \/ End(c, e))
       /\ ei' = ei + 1 /\ ci' = ci
       /\ (IF Show THEN PrintT(<<"AT", c.id, ei>>) ELSE TRUE)
       /\ (IF ei = Len(c.ev) THEN PrintT(<<"ACCEPT", c.id>>) ELSE TRUE)
Next == Observe \/ \E t \in Threads : Happen(t)
Spec == Init /\ [][Next]_vars
=============================================================================
