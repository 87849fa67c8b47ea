------------------------------ MODULE Transcode ------------------------------
(* What a generated (static) message type keeps of a message: the fields it  *)
(* declares.  Unknown fields and extensions are lost, a required field is     *)
(* always there, and a map value equal to the type's default is written as an *)
(* empty value.                                                               *)
EXTENDS Wire

Missing(MT, m) == {n \in DOMAIN MT[m.n].f : MT[m.n].f[n].card = 2 /\ At(m, n) = 0}
RECURSIVE PutAll(_, _, _)
PutAll(m, es, i) == IF i > Len(es) THEN m ELSE PutAll(Put(m, es[i]), es, i + 1)
RECURSIVE Static(_, _), StaticV(_, _, _), WithRequired(_, _, _)
WithRequired(MT, m, ns) ==
    IF ns = {} THEN m
    ELSE LET n == CHOOSE x \in ns : TRUE
             f == MT[m.n].f[n]
         IN WithRequired(MT, Put(m, VE(n, IF f.kind = "message" THEN Static(MT, MsgV(f.tn, <<>>)) ELSE f.dflt)), ns \ {n})
(* equality of static messages: zeros of either sign are equal, NaN equals nothing *)
EqDefault(MT, v) == LET d == Static(MT, MsgV(v.n, <<>>)) IN ~HasNan(v) /\ PosZero(v) = PosZero(d)
StaticV(MT, f, v) ==
    CASE v.t = "msg" -> Static(MT, v)
      [] v.t = "list" -> ListV([i \in DOMAIN v.l |-> IF v.l[i].t = "msg" THEN Static(MT, v.l[i]) ELSE v.l[i]])
      [] v.t = "map" -> MapV([i \in DOMAIN v.p |->
            <<v.p[i][1], IF v.p[i][2].t = "msg" THEN LET s == Static(MT, v.p[i][2]) IN IF EqDefault(MT, s) THEN MsgV(s.n, <<>>) ELSE s
                         ELSE PosZero(v.p[i][2])>>])
      [] OTHER -> v
Static(MT, m) ==
    LET keep == SelectSeq(Norm(MT, m).m, LAMBDA e : IF e.k = "v" THEN e.n \in DOMAIN MT[m.n].f ELSE FALSE)
        es == [i \in DOMAIN keep |-> VE(keep[i].n, StaticV(MT, MT[m.n].f[keep[i].n], keep[i].v))]
    IN WithRequired(MT, MsgV(m.n, es), Missing(MT, MsgV(m.n, es)))

(* ---- the build helper ---- *)
Google(pkg) == pkg = "google.protobuf" \/ (Len(pkg) > 16 /\ SubSeq(pkg, 1, 16) = "google.protobuf.")
PkgMsgs(files, pkg) == SelectSeq(Concat([i \in DOMAIN files |-> FileMsgs(files[i])]), LAMBDA r : r.pkg = pkg /\ ~r.m.mapentry)
EndsWith(s, t) == Len(s) > Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
=============================================================================
