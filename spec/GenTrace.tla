------------------------------ MODULE GenTrace ------------------------------
(* Generated and well-known static types, and the build helper, against the   *)
(* specification.                                                             *)
EXTENDS MsgTrace, Transcode

StaticDump(MT, m, d) == Norm(MT, Static(MT, m)) = d
GenEv(MT, e) ==
    LET own == Decode(MT, e.mt, e.e)
        src == Decode(MT, e.mt, e.b)
    IN IF e.q = "panic" THEN <<"gen.panic">>
       ELSE If(own.ok /\ (IF own.ok THEN Norm(MT, own.v) = e.d ELSE FALSE), "gen.own")
            \o If(IF e.exact /\ src.ok THEN StaticDump(MT, src.v, e.d) ELSE TRUE, "gen.fields")
            \o If(e.bd = e.d, "gen.box") \o If(e.dd = e.d, "gen.twice") \o If(e.back, "gen.back")
            \o If(e.nm = e.mt, "gen.name") \o If(e.nm2 = e.mt, "gen.dynname") \o If(e.nm3 = e.mt, "gen.dname")
FromEv(MT, e) ==
    LET m == Resync(MT, e.m)
    IN IF e.q # "ok" THEN <<"from." \o e.q>>
       ELSE IF ~Is(m) THEN <<>>
       ELSE LET r == Merge(MT, m, e.e) IN If(IF r.ok THEN Norm(MT, r.v) = e.d ELSE FALSE, "from.d")
ToEv(MT, e) ==
    LET m == Resync(MT, e.m)
    IN IF ~Is(m) THEN <<>>
       ELSE IF e.q # "ok" THEN <<"to." \o e.q>>
       ELSE IF ~e.exact THEN <<>>
       ELSE If(StaticDump(MT, m, e.d), "to.d")

(* every generated message type derives reflection once, under its own full name and with the given pool *)
ItemsOf(e, pkg) == LET i == {j \in DOMAIN e.pkgs : e.pkgs[j].pkg = pkg} IN IF i = {} THEN <<>> ELSE e.pkgs[CHOOSE j \in i : TRUE].items
Good(it, full, want) == it.d = 1 /\ it.n = <<full>> /\ it.p = <<want>>
(* the names in the schema that the given one ends with *)
Suffixed(full, all) == {n \in all : EndsWith(full, "." \o n)}
AttrBad(e) ==
    LET all == {r.full : r \in UNION {SeqToSet(FileMsgs(e.files[i])) : i \in DOMAIN e.files}}
        pkgs == {PkgOf(e.files[i]) : i \in DOMAIN e.files}
    IN UNION {LET ms == PkgMsgs(e.files, p)  its == ItemsOf(e, p)
              IN IF Google(p) THEN {}
                 ELSE IF Len(ms) # Len(its) THEN {"attrs.count"}
                 ELSE {IF Suffixed(ms[i].full, all) # {} /\ SeqToSet(its[i].n) = {ms[i].full} \cup Suffixed(ms[i].full, all) THEN "attrs.suffix" ELSE "attrs.item" :
                        i \in {j \in DOMAIN its : ~Good(its[j], ms[j].full, e.want)}} : p \in pkgs}
Chosen(bad) == SelectSeq(<<"attrs.count", "attrs.item", "attrs.suffix">>, LAMBDA t : t \in bad)
AttrsEv(e) ==
    IF e.want = "" THEN If(e.q = "err", "attrs.unset")
    ELSE IF e.q # "ok" THEN <<"attrs." \o e.q>>
    ELSE Chosen(AttrBad(e))

GenDispatch(sch, MT, e) ==
    CASE e.o = "name" -> Out(0, None, If(e.q = "ok" /\ e.nm = e.mt, "name"))
      [] e.o = "gen" -> Out(0, None, GenEv(MT, e))
      [] e.o = "from" -> Out(0, None, FromEv(MT, e))
      [] e.o = "to" -> Out(0, None, ToEv(MT, e))
      [] e.o = "attrs" -> Out(0, None, AttrsEv(e))
      [] OTHER -> Out(0, None, <<"crash">>)
GenNext ==
    /\ ci <= Len(Cases)
    /\ shard' = shard
    /\ LET c == Cases[ci] IN
       IF ei > Len(c.ev)
       THEN /\ ci' = ci + Shards /\ ei' = 1 /\ regs' = Empty
            /\ (IF ci + Shards > Len(Cases) THEN PrintT(<<"DONE", shard>>) ELSE TRUE)
       ELSE LET r == GenDispatch(c.sch, MTs[c.sch], c.ev[ei]) IN
            /\ ci' = ci /\ ei' = ei + 1 /\ regs' = regs
            /\ (IF r.bad # <<>> THEN PrintT(<<"MISMATCH", c.id, ei, r.bad>>) ELSE TRUE)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
