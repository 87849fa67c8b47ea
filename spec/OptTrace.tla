------------------------------ MODULE OptTrace ------------------------------
(* Checks recorded histories of pools whose files carry options.             *)
EXTENDS Options, PoolObs, IOUtils, Json

Dir == IOEnv.VDIR
Shards == 32
Cases == ndJsonDeserialize(Dir \o "/cases.ndjson")
G == Tables(ndJsonDeserialize(Dir \o "/schemas.ndjson"))

VARIABLES shard, ci, ei, pools
vars == <<shard, ci, ei, pools>>

NewPool == [ok |-> TRUE, files |-> <<>>, t |-> <<>>, mt |-> G.mt, kept |-> <<>>]
Lost == [NewPool EXCEPT !.ok = FALSE]
Start == [i \in 0..2 |-> NewPool]
Ev(x, v, bad) == [x |-> x, v |-> v, bad |-> bad]

Batch(c, e) == [i \in DOMAIN e.fs |-> c.files[e.fs[i]]]
AsBytes == {"decode_one", "decode_set", "new_decode"}
AddEv(c, e) ==
    LET p == pools[e.p]
        r == AddBatch(p.files, Batch(c, e))
        new == SubSeq(r.files, Len(p.files) + 1, Len(r.files))
        Source(f) == LET k == CHOOSE k \in DOMAIN e.fs : FName(c.files[e.fs[k]]) = FName(f)
                         m == Decode(G.mt, FDP, c.bytes[e.fs[k]]).v
                     IN IF e.how \in AsBytes THEN m ELSE KnownOnly(m)
        ks == [i \in DOMAIN new |-> Keep(FileContext(r.t, G, FName(new[i]), c.fw, c.nw), G, new[i], Source(new[i]))]
        Wrong(i) == IF {} \in ks[i].at THEN Nowhere(TRUE, "option") ELSE Breach(TRUE, "option", FName(new[i]), UNION ks[i].at)
        bad == r.rules \o (IF r.same THEN <<>> ELSE Concat([i \in DOMAIN ks |-> IF ks[i].ok THEN <<>> ELSE Wrong(i)]))
        located == [k \in DOMAIN e.fs |-> [c.files[e.fs[k]] EXCEPT !.locs = LocsOf(Decode(G.mt, FDP, c.bytes[e.fs[k]]).v)]]
        report == If(\E i \in DOMAIN bad : (bad[i].t = "option" /\ bad[i].at = {}) \/ ReportFits(bad[i], located, e.at), "add.report")
    IN IF e.q = "panic" THEN Ev(e.p, Lost, <<"add.panic">>)
       ELSE IF ~p.ok THEN Ev(e.p, p, <<>>)
       ELSE IF bad # <<>> THEN IF e.q = "ok" THEN Ev(e.p, Lost, <<"add.accepted", bad[1].t>>) ELSE Ev(e.p, p, report)
       ELSE IF e.q = "err" THEN Ev(e.p, p, <<"add.refused">>)
       ELSE IF r.same THEN Ev(e.p, p, <<>>)
       ELSE Ev(e.p, [ok |-> TRUE, files |-> r.files, t |-> r.t, mt |-> r.t.mt @@ G.mt,
                     kept |-> p.kept \o [i \in DOMAIN new |-> [fn |-> FName(new[i]), pkg |-> new[i].pkg, m |-> ks[i].v]]], <<>>)
KeptOf(p, fn) == p.kept[CHOOSE i \in DOMAIN p.kept : p.kept[i].fn = fn]
(* one definition's options *)
OptRes(p, o) == If(o.d = OptionsAt(p.mt, G, KeptOf(p, o.f).m, o.p, o.n, P(o.k)), "options")
OptsEv(p, d) == IF d.t = "panic" THEN <<"options.panic">>
                ELSE Concat([i \in DOMAIN d.os |-> OptRes(p, d.os[i])])
(* the files as encoded: from their descriptors, and the prost view of them *)
EncRes(p, x) ==
    LET k == KeptOf(p, x.f)
        r == Decode(G.mt, FDP, x.b)
        s == Decode(G.mt, FDP, x.pv)
    IN (IF ~r.ok THEN <<"encode.bad">> ELSE If(Seen(p.mt, G, Norm(G.mt, r.v), k.pkg) = Seen(p.mt, G, Norm(G.mt, k.m), k.pkg), "encode"))
       \o (IF ~s.ok THEN <<"view.bad">> ELSE If(Norm(G.mt, s.v) = Norm(G.mt, KnownOnly(k.m)), "view"))
EncEv(p, d) == IF d.t = "panic" THEN <<"encode.panic">>
               ELSE If([i \in DOMAIN d.fs |-> d.fs[i].f] = [i \in DOMAIN p.kept |-> p.kept[i].fn], "encode.files")
                    \o If(d.cat, "encode.pool") \o Concat([i \in DOMAIN d.fs |-> EncRes(p, d.fs[i])])
Dispatch(c, e) ==
    LET p == pools[e.p] IN
    CASE e.o = "crash" -> Ev(0, pools[0], <<"crash">>)
      [] e.o = "add" -> AddEv(c, e)
      [] e.o = "new" -> Ev(e.p, NewPool, <<>>)
      [] e.o = "clone" -> Ev(e.p, pools[e.from], <<>>)
      [] e.o = "again" -> Ev(e.p, pools[e.from], IF pools[e.from].ok THEN If(e.q = "ok", "again") ELSE <<>>)
      [] e.o = "dump" -> Ev(e.p, p, IF p.ok THEN DumpRes(c.dumps[e.d], IF p.files = <<>> THEN EmptyFacts ELSE Facts(p.t)) ELSE <<>>)
      [] e.o = "opts" -> Ev(e.p, p, IF p.ok THEN OptsEv(p, e.d) ELSE <<>>)
      [] e.o = "enc" -> Ev(e.p, p, IF p.ok THEN EncEv(p, e.d) ELSE <<>>)

Init == shard \in 1..Shards /\ ci = shard /\ ei = 1 /\ pools = Start
Next ==
    /\ ci <= Len(Cases)
    /\ shard' = shard
    /\ LET c == Cases[ci] IN
       IF ei > Len(c.ev)
       THEN /\ ci' = ci + Shards /\ ei' = 1 /\ pools' = Start
            /\ (IF ci + Shards > Len(Cases) THEN PrintT(<<"DONE", shard>>) ELSE TRUE)
       ELSE LET r == Dispatch(c, c.ev[ei]) IN
            /\ ci' = ci /\ ei' = ei + 1 /\ pools' = [pools EXCEPT ![r.x] = r.v]
            /\ (IF r.bad # <<>> THEN PrintT(<<"MISMATCH", c.id, ei, r.bad>>) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
