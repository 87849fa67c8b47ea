------------------------------ MODULE MsgTrace ------------------------------
(* Checks recorded executions of dynamic messages against the specification. *)
(* One event of the recording is one transition.  After a disagreement the    *)
(* model continues from the observed content.                                 *)
EXTENDS TextFmt, IOUtils, Json

Dir == IOEnv.VDIR
Shards == 32
Schemas == ndJsonDeserialize(Dir \o "/schemas.ndjson")
Cases == ndJsonDeserialize(Dir \o "/cases.ndjson")
T == [i \in DOMAIN Schemas |-> Tables(Schemas[i].files)]
MTs == [i \in DOMAIN Schemas |-> T[i].mt]

VARIABLES shard, ci, ei, regs
vars == <<shard, ci, ei, regs>>

None == [t |-> "none"]
Empty == [i \in 0..3 |-> None]
Is(m) == m.t = "msg"

(* ---- addressing ---- *)
NoField == [num |-> 0]
Target(MT, mt, e) ==
    CASE e.by = "ext" -> IF e.n \in DOMAIN MT[mt].x THEN MT[mt].x[e.n] ELSE NoField
      [] e.by = "name" -> IF e.nm \in DOMAIN MT[mt].names THEN MT[mt].f[MT[mt].names[e.nm]] ELSE NoField
      [] OTHER -> IF e.n \in DOMAIN MT[mt].f THEN MT[mt].f[e.n] ELSE NoField

(* zero of either sign in a field without presence is the same unset field *)
SameVal(f, a, b) == \/ a = b
                    \/ /\ ~f.pres /\ a.t \in {"f32", "f64"} /\ a.t = b.t
                       /\ IsZeroFloat(a.s) /\ IsZeroFloat(b.s)

(* outcome of an event: new value of register x, and the list of disagreements *)
Out(x, v, bad) == [x |-> x, v |-> v, bad |-> bad]
If(c, tag) == IF c THEN <<>> ELSE <<tag>>
Resync(MT, d) == IF Is(d) THEN (IF WellTyped(MT, d) THEN d ELSE None) ELSE None
(* compare with the dump taken after the event, continue from it when they differ *)
Dumped(MT, e, v, tag, more) ==
    LET n == IF Is(v) THEN Norm(MT, v) ELSE v
    IN IF e.d = n \/ (Is(v) /\ e.d.t = "deep") THEN Out(e.x, v, more) ELSE Out(e.x, Resync(MT, e.d), more \o <<tag>>)

SetEv(MT, m, e) ==
    LET f == Target(MT, m.n, e) IN
    IF f.num = 0 THEN Dumped(MT, e, m, "set.d", If(e.q = (IF e.try THEN "notfound" ELSE "ok"), "set.q"))
    ELSE IF ValidFor(MT, f, e.v) THEN Dumped(MT, e, SetF(MT, m, f, e.v), "set.d", If(e.q = "ok", "set.q"))
    ELSE Dumped(MT, e, m, "set.d", If(e.q = (IF e.try THEN "invalid" ELSE "panic"), "set.q"))

GetEv(MT, m, e) ==
    LET f == Target(MT, m.n, e) IN
    IF f.num = 0 THEN Dumped(MT, e, m, "get.d", If(e.q = <<>> /\ ~e.has, "get.q"))
    ELSE Dumped(MT, e, m, "get.d", If(e.q # <<>> /\ SameVal(f, e.q[1], NormV(MT, f, Current(m, f))), "get.q") \o If(e.has = Has(m, f), "get.has"))

MutEv(MT, m, e) ==
    LET f == Target(MT, m.n, e) IN
    IF f.num = 0 THEN Dumped(MT, e, m, "mut.d", If(e.q = "notfound", "mut.q"))
    ELSE Dumped(MT, e, SetF(MT, m, f, Acted(MT, f, Current(m, f), e)), "mut.d", If(e.q = "ok", "mut.q"))
ClearEv(MT, m, e) ==
    LET f == Target(MT, m.n, e) IN
    IF f.num = 0 THEN Dumped(MT, e, m, "clear.d", If(e.q = <<>>, "take.q"))
    ELSE IF e.o = "clear" THEN Dumped(MT, e, ClearF(m, f), "clear.d", If(e.q = <<>>, "take.q"))
    ELSE LET t == Take(m, f)
             r == IF t.r = <<>> THEN <<>> ELSE <<NormV(MT, f, t.r[1])>>
         IN Dumped(MT, e, t.m, "take.d", If(e.q = r, "take.q"))

Pairs(MT, mt, es) == [i \in DOMAIN es |-> <<es[i].n, NormV(MT, Lookup(MT, mt, es[i].n), es[i].v)>>]
ListEv(MT, m, e) ==
    Out(e.x, m, If(e.f = Pairs(MT, m.n, SetEntries(MT, m, FALSE)), "list.f")
                \o If(e.e = Pairs(MT, m.n, SetEntries(MT, m, TRUE)), "list.e")
                \o If(e.u = Unknowns(m), "list.u"))
IterMutEv(MT, m, e) ==
    LET es == SetEntries(MT, m, e.ext)
    IN IF e.ns # [i \in DOMAIN es |-> es[i].n] THEN Dumped(MT, e, m, "itermut.d", <<"itermut.q">>)
       ELSE Dumped(MT, e, AssignAll(m, e.a, 1), "itermut.d", <<>>)
Prefix(s, k) == IF k >= Len(s) THEN s ELSE SubSeq(s, 1, k)
DrainEv(MT, m, e) ==
    IF e.kind = "u" THEN
        IF e.k = 0 THEN Dumped(MT, e, m, "drain.d", If(e.q = <<>>, "drain.u"))
        ELSE Dumped(MT, e, [m EXCEPT !.m = SelectSeq(@, LAMBDA x : x.k # "u")], "drain.d", If(e.q = Unknowns(m), "drain.u"))
    ELSE LET es == Prefix(SetEntries(MT, m, e.kind = "e"), e.k)
         IN Dumped(MT, e, Del(m, {es[i].n : i \in DOMAIN es}), "drain.d", If(e.q = Pairs(MT, m.n, es), "drain.q"))

(* PartialEq of values: NaN equals nothing, zeros are equal *)
EqVal(a, b) == IF a.t \in {"f32", "f64"} /\ b.t = a.t
               THEN ~IsNanBits(a.s) /\ ~IsNanBits(b.s) /\ (a.s = b.s \/ (IsZeroFloat(a.s) /\ IsZeroFloat(b.s)))
               ELSE a = b
KindZero(sch, f) == ZeroOf(f.kind, f.tn, T[sch].enums)
ValqEv(sch, MT, e) ==
    LET f == Lookup(MT, e.mt, e.n)
        z == KindZero(sch, f)
    IN If(e.q, "valq.panic")
       \o If(e.ff = ValidFor(MT, f, e.v), "valq.field") \o If(e.fk = ElemValid(f, e.v), "valq.kind")
       \o If(e.v.t = "msg" \/ e.isd = EqVal(e.v, f.dflt), "valq.default") \o If(e.v.t = "msg" \/ e.iskd = EqVal(e.v, z), "valq.kdefault")
       \o If(e.fdv = f.dflt, "valq.fdv") \o If(e.kdv = z, "valq.kdv")
(* a value is seen through the views of its own type, and only those, and is a map key if its
   type may be one *)
KeyTags == {"bool", "i32", "i64", "u32", "u64", "string"}
AccEv(sch, MT, e) ==
    LET f == Lookup(MT, e.mt, e.n)
        own == [a |-> e.v.t, d |-> e.v]
    IN If(e.a = <<own, own>>, "acc.views")
       \o If(e.b = (IF e.v.t \in KeyTags THEN <<own, own, own>> ELSE <<>>), "acc.key")
       \o If(\A i \in DOMAIN e.k : e.k[i].ok = ElemValid(f, e.v) /\ e.k[i].d = KindZero(sch, f) /\ e.k[i].isd = (e.v = KindZero(sch, f)), "acc.kind")
Opt1(b, v) == IF b THEN <<v>> ELSE <<>>
LookEv(MT, e) ==
    LET t == MT[e.mt]
        xj == {n \in DOMAIN t.x : t.x[n].json = e.nm}
    IN If(e.fn = Opt1(e.n \in DOMAIN t.f, e.n), "look.number")
       \o If(e.fname = (IF e.nm \in DOMAIN t.names THEN <<t.names[e.nm]>> ELSE <<>>), "look.name")
       \o If(e.fjson = (IF e.nm \in DOMAIN t.jsons THEN <<t.jsons[e.nm]>> ELSE <<>>), "look.json")
       \o If(e.xn = (IF e.n \in DOMAIN t.x THEN <<t.x[e.n].full>> ELSE <<>>), "look.xnumber")
       \o If(e.xfull = (IF e.nm \in DOMAIN t.xnames THEN <<t.xnames[e.nm]>> ELSE <<>>), "look.xfull")
       \o If(e.xjson = (IF xj = {} THEN <<>> ELSE <<CHOOSE n \in xj : TRUE>>), "look.xjson")
       \o If(e.fs = [i \in DOMAIN t.byn |-> t.byn[i].num], "look.fields")
       \o If(SeqToSet(e.xs) = DOMAIN t.xnames /\ Len(e.xs) = Cardinality(DOMAIN t.xnames), "look.extensions")

EncEv(MT, m, e) ==
    Out(e.x, m, IF e.q # "ok" THEN <<"enc.panic">>
                ELSE IF e.mo.t # "deep" /\ ~Is(Resync(MT, e.mo)) THEN <<"enc.mo">>
                ELSE If(e.b = Encode(MT, IF e.mo.t = "deep" THEN Norm(MT, m) ELSE e.mo), "enc.b") \o If(e.len = Len(e.b), "enc.len") \o If(e.ld, "enc.ld"))
DecRes(MT, e, r) ==
    IF e.q = "panic" THEN Out(e.x, None, <<"dec.panic">>)
    ELSE IF r.ok THEN (IF e.q = "ok" THEN Dumped(MT, e, r.v, "dec.d", <<>>) ELSE Out(e.x, None, <<"dec.refused">>))
    ELSE IF e.q = "ok" THEN Out(e.x, Resync(MT, e.d), <<"dec.accepted">>)
    ELSE Out(e.x, None, <<>>)
MergeEv(MT, m, e) ==
    LET r == Merge(MT, m, e.b)
        o == DecRes(MT, e, r)
    IN IF e.q = "err" /\ (IF Is(Resync(MT, e.d)) THEN ~OneofOK(MT, e.d) ELSE FALSE) THEN [o EXCEPT !.bad = @ \o <<"merge.oneof">>] ELSE o

(* ---- JSON ---- *)
Ctx(sch) == [mt |-> MTs[sch], en |-> T[sch].enums, ew |-> Schemas[sch].ew]
JsonEv(sch, MT, m, e) ==
    LET n == MsgNode(Ctx(sch), e.opts, Norm(MT, m))
    IN Out(e.x, m, IF e.q = "panic" THEN <<"json.panic">>
                   ELSE IF HasErr(n) THEN If(e.q = "err", "json.accepted")
                   ELSE IF e.q = "err" THEN <<"json.refused">>
                   ELSE If(Match(n, e.j), "json.j"))
UnjsonEv(sch, MT, e) ==
    LET C == Ctx(sch)
        r == IF e.j.j = "bad" THEN NoVal ELSE MsgFrom(C, e.mt, e.j, e.deny)
        d == Resync(MT, e.d)
    IN IF e.q = "panic" THEN Out(e.x, None, <<"unjson.panic">>)
       ELSE IF ~r.ok THEN (IF e.q = "ok" THEN Out(e.x, d, <<"unjson.accepted">>) ELSE Out(e.x, None, <<>>))
       ELSE IF e.q = "err" THEN Out(e.x, None, <<"unjson.refused">>)
       ELSE IF ~Is(d) THEN Out(e.x, None, <<"unjson.d">>)
       ELSE Out(e.x, d, If(Carried(C, Norm(MT, r.v[1]), FALSE) = Carried(C, d, FALSE), "unjson.d") \o If(OneofOK(MT, d), "unjson.oneof"))
JroundEv(sch, MT, e) ==
    LET a == regs[e.x]  b == regs[e.y]  C == Ctx(sch)
    IN Out(e.x, a, If(IF Is(a) /\ Is(b) THEN Carried(C, Norm(MT, a), TRUE) = Carried(C, Norm(MT, b), TRUE) ELSE FALSE, "jround"))

(* ---- text format ---- *)
TextEv(sch, MT, m, e) ==
    Out(e.x, m, IF e.q # "ok" THEN <<"text.panic">>
                ELSE If(TextMatch(BodyT(Ctx(sch), e.opts, Norm(MT, m), 0), e.tx, e.fw), "text.tx"))
VtextEv(sch, e) == If(e.q = "ok", "vtext.panic") \o If(TextMatch(ValT(Ctx(sch), e.opts, "", e.v, 0), e.tx, e.fw), "vtext.tx")
UntextEv(sch, MT, m0, e) ==
    LET C == Ctx(sch)
        r == ReadText(C, m0, e.tx, e.fw)
        d == Resync(MT, e.d)
    IN IF e.q = "panic" THEN Out(e.x, None, <<"untext.panic">>)
       ELSE IF ~r.ok THEN (IF e.q = "ok" THEN Out(e.x, d, <<"untext.accepted">>) ELSE Out(e.x, None, <<>>))
       ELSE IF e.q = "err" THEN Out(e.x, None, <<"untext.refused">>)
       ELSE IF ~Is(d) THEN Out(e.x, None, <<"untext.d">>)
       ELSE Out(e.x, d, If(Carried(C, Norm(MT, r.v), FALSE) = Carried(C, d, FALSE), "untext.d") \o If(OneofOK(MT, d), "untext.oneof"))
TroundEv(sch, MT, e) ==
    LET a == regs[e.x]  b == regs[e.y]  C == Ctx(sch)
    IN Out(e.x, a, If(IF Is(a) /\ Is(b) THEN Kept(C, Norm(MT, a)) = Kept(C, Norm(MT, b)) ELSE FALSE, "tround"))

Clean(m) == Is(m) /\ ~HasNan(m)
Step(sch, MT, e) ==
    LET m == regs[e.x] IN
    CASE e.o = "new" -> Dumped(MT, e, MsgV(e.mt, <<>>), "new.d", <<>>)
      [] e.o = "load" -> IF ~Is(Resync(MT, e.d)) THEN Out(e.x, None, <<"load.types">>) ELSE Out(e.x, e.d, If(Norm(MT, e.d) = e.d, "load.norm") \o If(OneofOK(MT, e.d), "load.oneof"))
      [] e.o = "copy" -> Dumped(MT, [d |-> e.d, x |-> e.y], m, "copy.d", <<>>)
      [] e.o = "dec" -> DecRes(MT, e, Decode(MT, e.mt, e.b))
      [] e.o = "eq" -> Out(e.x, m, If(e.q = (Is(regs[e.y]) /\ PosZero(Norm(MT, m)) = PosZero(Norm(MT, regs[e.y])) /\ Clean(m)), "eq"))
      [] e.o = "same" -> Out(e.x, m, If((IF Is(m) THEN Norm(MT, m) ELSE m) = (IF Is(regs[e.y]) THEN Norm(MT, regs[e.y]) ELSE regs[e.y]), "same"))
      [] e.o = "unjson" -> UnjsonEv(sch, MT, e)
      [] e.o = "jround" -> JroundEv(sch, MT, e)
      [] e.o = "untext" -> UntextEv(sch, MT, MsgV(e.mt, <<>>), e)
      [] e.o = "tround" -> TroundEv(sch, MT, e)
      [] ~Is(m) -> Out(e.x, m, <<>>)
      [] e.o = "insp" -> Out(e.x, m, If(e.q = "ok", "insp.panic." \o e.k))
      [] e.o = "json" -> JsonEv(sch, MT, m, e)
      [] e.o = "text" -> TextEv(sch, MT, m, e)
      [] e.o = "mergetext" -> UntextEv(sch, MT, m, e)
      [] e.o = "set" -> SetEv(MT, m, e)
      [] e.o = "get" -> GetEv(MT, m, e)
      [] e.o = "mut" -> MutEv(MT, m, e)
      [] e.o \in {"clear", "take"} -> ClearEv(MT, m, e)
      [] e.o = "list" -> ListEv(MT, m, e)
      [] e.o = "itermut" -> IterMutEv(MT, m, e)
      [] e.o = "drain" -> DrainEv(MT, m, e)
      [] e.o = "clearall" -> Dumped(MT, e, MsgV(m.n, <<>>), "clearall.d", If(e.q = "ok", "clearall.panic"))
      [] e.o = "enc" -> EncEv(MT, m, e)
      [] e.o = "merge" -> MergeEv(MT, m, e)
Dispatch(sch, MT, e) ==
    CASE e.o = "crash" -> Out(0, None, <<"crash">>)
      [] e.o = "deep" -> Out(0, None, IF e.q = "panic" THEN <<"deep.panic">> ELSE If(e.q = "err", "deep.accepted"))
      [] e.o = "valq" -> Out(0, regs[0], ValqEv(sch, MT, e))
      [] e.o = "acc" -> Out(0, regs[0], AccEv(sch, MT, e))
      [] e.o = "vtext" -> Out(0, regs[0], VtextEv(sch, e))
      [] e.o = "look" -> Out(0, regs[0], LookEv(MT, e))
      [] OTHER -> Step(sch, MT, e)

Init == shard \in 1..Shards /\ ci = shard /\ ei = 1 /\ regs = Empty
Next ==
    /\ ci <= Len(Cases)
    /\ shard' = shard
    /\ LET c == Cases[ci] IN
       IF ei > Len(c.ev)
       THEN /\ ci' = ci + Shards /\ ei' = 1 /\ regs' = Empty
            /\ (IF ci + Shards > Len(Cases) THEN PrintT(<<"DONE", shard>>) ELSE TRUE)
       ELSE LET r == Dispatch(c.sch, MTs[c.sch], c.ev[ei]) IN
            /\ ci' = ci /\ ei' = ei + 1 /\ regs' = [regs EXCEPT ![r.x] = r.v]
            /\ (IF r.bad # <<>> THEN PrintT(<<"MISMATCH", c.id, ei, r.bad>>) ELSE TRUE)
Spec == Init /\ [][Next]_vars
(* at most one member of a oneof, in every register, after every event *)
Oneofs == \A i \in DOMAIN regs : Is(regs[i]) => OneofOK(MTs[Cases[ci].sch], regs[i])
=============================================================================
