------------------------------ MODULE PoolObs ------------------------------
(* Comparing what a real pool reports with what the specification says.      *)
EXTENDS Pool

If(c, tag) == IF c THEN <<>> ELSE <<tag>>
Set(s) == SeqToSet(s)
Once(s) == Cardinality(SeqToSet(s)) = Len(s)
ObsMsg(m) == [m EXCEPT !.fs = Set(@), !.os = [k \in DOMAIN m.os |-> [m.os[k] EXCEPT !.fs = Set(@)]], !.xs = Set(@), !.xn = Set(@),
                       !.ln = Set(@), !.lm = Set(@), !.lj = Set(@), !.lx = Set(@), !.lxj = Set(@)]
MsgOnce(m) == Once(m.fs) /\ Once(m.xs) /\ \A k \in DOMAIN m.os : Once(m.os[k].fs)
(* the observed result of a lookup by number where several extensions share the number is not compared *)
NoXn(m, e) == IF e.xn = {} THEN [m EXCEPT !.xn = {}] ELSE m
SameMsgs(d, f) ==
    /\ Len(d) = Cardinality(f)
    /\ \A i \in DOMAIN d : MsgOnce(d[i]) /\ \E e \in f : e.full = d[i].full /\ NoXn(ObsMsg(d[i]), e) = e
ObsEnum(e) == [n |-> e.n, full |-> e.full, pkg |-> e.pkg, fn |-> e.fn, parent |-> e.parent, path |-> e.path, vs |-> Set(e.vs), d |-> e.d,
               rr |-> e.rr, rn |-> e.rn, lm |-> Set(e.lm)]
SameEnums(d, f, er) ==
    /\ Len(d) = Cardinality(f)
    /\ \A i \in DOMAIN d : Once(d[i].vs) /\ ObsEnum(d[i]) \in f
    /\ \A i \in DOMAIN d : \A k \in DOMAIN er : er[k].full = d[i].full => EnumLookupOK(er[k], Set(d[i].ln))
SameSet(d, f) == Len(d) = Cardinality(f) /\ Set(d) = f
DumpRes(d, f) ==
    IF d.t = "panic" THEN <<"dump.panic">>
    ELSE If(SameSet(d.files, f.files), "files") \o If(SameMsgs(d.msgs, f.msgs), "messages")
         \o If(SameEnums(d.enums, f.enums, f.er), "enums") \o If(SameSet(d.exts, f.exts), "extensions")
         \o If(SameSet(d.svcs, f.svcs), "services") \o If(SameSet(d.look, f.look), "lookup") \o If(d.self, "self")
(* descriptors kept from earlier: the facts of that time, seen through them *)
HeldRes(d, f) ==
    IF d.t = "panic" THEN <<"held.panic">>
    ELSE If(SameSet(d.files, f.files), "held.files") \o If(SameMsgs(d.msgs, f.msgs), "held.messages")
         \o If(SameEnums(d.enums, f.enums, f.er), "held.enums") \o If(SameSet(d.exts, f.exts), "held.extensions")
         \o If(SameSet(d.svcs, f.svcs), "held.services") \o If(d.self, "held.use")
=============================================================================
