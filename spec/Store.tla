-------------------------------- MODULE Store --------------------------------
(* A dynamic message as a finite map from field numbers to values.           *)
(* A message value is [t |-> "msg", n |-> type, m |-> entries]; an entry is   *)
(* [n, k |-> "v", v] for a known field or extension and [n, k |-> "u", u] for  *)
(* the unknown fields of one number in arrival order; entries are sorted by n. *)
EXTENDS Schema

At(m, n) == LET i == {j \in DOMAIN m.m : m.m[j].n = n} IN IF i = {} THEN 0 ELSE CHOOSE j \in i : TRUE
Del(m, ns) == [m EXCEPT !.m = SelectSeq(@, LAMBDA e : e.n \notin ns)]
Put(m, e) == [m EXCEPT !.m = SelectSeq(@, LAMBDA x : x.n < e.n) \o <<e>> \o SelectSeq(@, LAMBDA x : x.n > e.n)]
VE(n, v) == [n |-> n, k |-> "v", v |-> v]
UE(n, u) == [n |-> n, k |-> "u", u |-> u]

IsDefault(f, v) ==
    IF v.t = "list" THEN v.l = <<>>
    ELSE IF v.t = "map" THEN v.p = <<>>
    ELSE IF v.t \in {"f32", "f64"} THEN (v.s = f.dflt.s /\ ~IsNanBits(v.s)) \/ (IsZeroFloat(v.s) /\ IsZeroFloat(f.dflt.s))
    ELSE v = f.dflt
HasV(f, v) == f.pres \/ ~IsDefault(f, v)

(* MT: message table *)
Lookup(MT, mt, n) == IF n \in DOMAIN MT[mt].f THEN MT[mt].f[n] ELSE MT[mt].x[n]
Knows(MT, mt, n) == n \in DOMAIN MT[mt].f \/ n \in DOMAIN MT[mt].x

(* the observable content: entries of unset fields removed, at every level *)
RECURSIVE Norm(_, _), NormV(_, _, _)
NormV(MT, f, v) ==
    IF f.kind # "message" THEN v
    ELSE IF v.t = "msg" THEN Norm(MT, v)
    ELSE IF v.t = "list" THEN ListV([i \in DOMAIN v.l |-> Norm(MT, v.l[i])])
    ELSE IF v.t = "map" THEN LET vf == MT[f.tn].f[2] IN
         IF vf.kind = "message" THEN MapV([i \in DOMAIN v.p |-> <<v.p[i][1], Norm(MT, v.p[i][2])>>]) ELSE v
    ELSE v
Norm(MT, m) ==
    IF m.m = <<>> THEN m
    ELSE LET keep == SelectSeq(m.m, LAMBDA e : e.k = "u" \/ HasV(Lookup(MT, m.n, e.n), e.v))
         IN MsgV(m.n, [i \in DOMAIN keep |-> IF keep[i].k = "u" THEN keep[i] ELSE VE(keep[i].n, NormV(MT, Lookup(MT, m.n, keep[i].n), keep[i].v))])

(* ---- the operations ---- *)
Siblings(MT, mt, f) == IF f.oneof = 0 THEN {} ELSE MT[mt].sibs[f.oneof] \ {f.num}
Current(m, f) == LET i == At(m, f.num) IN IF i # 0 /\ m.m[i].k = "v" THEN m.m[i].v ELSE f.dflt
Has(m, f) == LET i == At(m, f.num) IN i # 0 /\ m.m[i].k = "v" /\ HasV(f, m.m[i].v)
SetF(MT, m, f, v) == Put(Del(m, Siblings(MT, m.n, f)), VE(f.num, v))
ClearF(m, f) == Del(m, {f.num})
(* mutable access: the field becomes present, its siblings absent *)
Touch(MT, m, f) == SetF(MT, m, f, Current(m, f))
Take(m, f) == [r |-> IF Has(m, f) THEN <<Current(m, f)>> ELSE <<>>, m |-> ClearF(m, f)]
SetEntries(MT, m, isExt) == SelectSeq(m.m, LAMBDA e : e.k = "v" /\ (e.n \in DOMAIN (IF isExt THEN MT[m.n].x ELSE MT[m.n].f)) /\ HasV(Lookup(MT, m.n, e.n), e.v))
Unknowns(m) == Concat([i \in DOMAIN m.m |-> IF m.m[i].k = "u" THEN m.m[i].u ELSE <<>>])
AddUnknown(m, u) == LET i == At(m, u.n) IN
    IF i # 0 /\ m.m[i].k = "u" THEN Put(m, UE(u.n, Append(m.m[i].u, u))) ELSE Put(m, UE(u.n, <<u>>))

(* maps: pairs sorted by key bytes *)
MapPut(p, k, v) == SelectSeq(p, LAMBDA e : BytesLt(e[1].s, k.s)) \o <<<<k, v>>>> \o SelectSeq(p, LAMBDA e : BytesLt(k.s, e[1].s))
MapGet(p, k) == LET i == {j \in DOMAIN p : p[j][1] = k} IN IF i = {} THEN <<>> ELSE <<p[CHOOSE j \in i : TRUE][2]>>

(* ---- what is done through a mutable reference to a value: e.act with arguments e.a ---- *)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Acted(MT, f, v, e) ==
    CASE e.act = "assign" -> e.a[1]
      [] e.act = "push" -> ListV(Append(v.l, e.a[1]))
      [] e.act = "rem" -> ListV(RemoveAt(v.l, e.a[1]))
      [] e.act = "ins" -> MapV(MapPut(v.p, e.a[1], e.a[2]))
      [] e.act = "del" -> MapV(SelectSeq(v.p, LAMBDA kv : kv[1] # e.a[1]))
      [] e.act = "sub" -> SetF(MT, v, Lookup(MT, v.n, e.a[1]), e.a[2])
      [] e.act = "subclear" -> ClearF(v, Lookup(MT, v.n, e.a[1]))
      [] OTHER -> v
(* assignments through the mutable iterators: only the values change *)
RECURSIVE AssignAll(_, _, _)
AssignAll(m, a, i) == IF i > Len(a) THEN m ELSE AssignAll(Put(m, VE(a[i][1], a[i][2])), a, i + 1)

(* ---- type checks of the checked setters ---- *)
ElemValid(f, v) == v.t = Tag(f.kind)
ValidFor(MT, f, v) ==
    IF f.list THEN v.t = "list" /\ \A i \in DOMAIN v.l : ElemValid(f, v.l[i])
    ELSE IF f.map THEN v.t = "map" /\ LET kf == MT[f.tn].f[1]  vf == MT[f.tn].f[2]
                                      IN \A i \in DOMAIN v.p : ElemValid(kf, v.p[i][1]) /\ (IF vf.list \/ vf.map THEN FALSE ELSE ElemValid(vf, v.p[i][2]))
    ELSE ElemValid(f, v)

(* the type invariant: every entry is known or unknown, of its field's type at every level *)
RECURSIVE WellTyped(_, _), WellTypedV(_, _, _), WellUnknown(_)
WellUnknown(u) == "w" \in DOMAIN u /\ (IF u.w = 3 THEN \A i \in DOMAIN u.g : WellUnknown(u.g[i]) ELSE "p" \in DOMAIN u)
WellElem(MT, f, v) == v.t = Tag(f.kind) /\ (IF f.kind = "message" THEN v.n = f.tn /\ WellTyped(MT, v) ELSE TRUE)
WellTypedV(MT, f, v) ==
    IF f.list THEN v.t = "list" /\ \A i \in DOMAIN v.l : WellElem(MT, f, v.l[i])
    ELSE IF f.map THEN v.t = "map" /\ \A i \in DOMAIN v.p : WellElem(MT, MT[f.tn].f[1], v.p[i][1]) /\ WellElem(MT, MT[f.tn].f[2], v.p[i][2])
    ELSE WellElem(MT, f, v)
WellTyped(MT, m) ==
    /\ m.t = "msg"
    /\ m.n \in DOMAIN MT
    /\ \A i \in DOMAIN m.m : LET e == m.m[i] IN
         IF e.k = "u" THEN \A j \in DOMAIN e.u : WellUnknown(e.u[j])
         ELSE Knows(MT, m.n, e.n) /\ WellTypedV(MT, Lookup(MT, m.n, e.n), e.v)

(* ---- laws ---- *)
RECURSIVE OneofOK(_, _)
OneofOK(MT, m) ==
    /\ \A j \in DOMAIN MT[m.n].sibs : Cardinality({i \in DOMAIN m.m : m.m[i].n \in MT[m.n].sibs[j]}) <= 1
    /\ \A i \in DOMAIN m.m : m.m[i].k = "u" \/
         LET v == m.m[i].v IN
         CASE v.t = "msg" -> OneofOK(MT, v)
           [] v.t = "list" -> \A j \in DOMAIN v.l : v.l[j].t # "msg" \/ OneofOK(MT, v.l[j])
           [] v.t = "map" -> \A j \in DOMAIN v.p : v.p[j][2].t # "msg" \/ OneofOK(MT, v.p[j][2])
           [] OTHER -> TRUE
RECURSIVE HasNan(_)
HasNan(v) == CASE v.t \in {"f32", "f64"} -> IsNanBits(v.s)
               [] v.t = "list" -> \E i \in DOMAIN v.l : HasNan(v.l[i])
               [] v.t = "map" -> \E i \in DOMAIN v.p : HasNan(v.p[i][2])
               [] v.t = "msg" -> \E i \in DOMAIN v.m : v.m[i].k = "v" /\ HasNan(v.m[i].v)
               [] OTHER -> FALSE
(* the value with every negative zero replaced by zero: equality of floats as numbers *)
RECURSIVE PosZero(_)
PosZero(v) == CASE v.t \in {"f32", "f64"} -> IF IsZeroFloat(v.s) THEN S(v.t, Zeros[Len(v.s)]) ELSE v
                [] v.t = "list" -> ListV([i \in DOMAIN v.l |-> PosZero(v.l[i])])
                [] v.t = "map" -> MapV([i \in DOMAIN v.p |-> <<v.p[i][1], PosZero(v.p[i][2])>>])
                [] v.t = "msg" -> MsgV(v.n, [i \in DOMAIN v.m |-> IF v.m[i].k = "v" THEN VE(v.m[i].n, PosZero(v.m[i].v)) ELSE v.m[i]])
                [] OTHER -> v
=============================================================================
