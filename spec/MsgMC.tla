-------------------------------- MODULE MsgMC --------------------------------
(* Closed model: one message of the type s.N under every history of a menu of *)
(* operations, explored completely.  The laws of messages and of the three     *)
(* formats are invariants; every reachable content is printed with a shortest  *)
(* history that gives it, to be replayed on the real code.                     *)
EXTENDS TextFmt, IOUtils, Json

CONSTANT Fields, Deep   (* how many fields may hold something when an operation is tried; longer lists *)
Sch == ndJsonDeserialize(IOEnv.VDIR \o "/schemas.ndjson")[1]
T == Tables(Sch.files)
MT == T.mt
C == [mt |-> MT, en |-> T.enums, ew |-> <<>>]
N == "s.N"
F == [n \in DOMAIN MT[N].f \cup DOMAIN MT[N].x |-> Lookup(MT, N, n)]

VARIABLES content, trail
vars == <<content, trail>>

(* ---- values ---- *)
I(n) == S("i32", IntBytes(n, 4))
En(n) == S("enum", IntBytes(n, 4))
Bo(b) == S("bool", <<b>>)
Str(b) == S("string", b)
Nv(es) == MsgV(N, es)
Zv(es) == MsgV("s.Z", es)
Gv(es) == MsgV("s.N.G", es)
Z1 == Zv(<<VE(1, I(1))>>)
Tr == Bo(1)
Fa == Bo(0)
Bb == <<98>>
Q1 == MapV(<< <<Fa, Zv(<<>>)>> >>)
Q2 == MapV(<< <<Fa, Z1>>, <<Tr, Zv(<<>>)>> >>)

(* ---- the menu ---- *)
SetO(n, v) == [o |-> "set", n |-> n, v |-> v]
MutO(n, act, a) == [o |-> "mut", n |-> n, act |-> act, a |-> a]
MergeO(b) == [o |-> "merge", b |-> b]
Basic == {SetO(1, I(0)), SetO(1, I(5)), SetO(2, Fa), SetO(2, Tr), SetO(3, Nv(<<>>)), SetO(3, Nv(<<VE(2, Fa)>>)),
          SetO(4, ListV(<<>>)), SetO(4, ListV(<<I(-1)>>)), SetO(5, MapV(<<>>)), SetO(5, Q1), SetO(6, Zv(<<>>)), SetO(6, Z1), SetO(7, Gv(<<>>)),
          SetO(10, Str(<<>>)), SetO(10, Str(Bb)), SetO(11, ListV(<<En(1)>>))}
(* values of another type: refused *)
Wrong == {SetO(1, Str(Bb)), SetO(2, I(1)), SetO(3, Tr), SetO(4, ListV(<<I(0), Tr>>)), SetO(4, I(0)), SetO(5, MapV(<< <<I(0), Z1>> >>)), SetO(5, MapV(<< <<Tr, Tr>> >>)), SetO(6, ListV(<<Z1>>))}
Mutes == {MutO(n, "none", <<>>) : n \in DOMAIN F}
         \cup {MutO(4, "push", <<I(0)>>), MutO(5, "ins", <<Tr, Z1>>), MutO(5, "del", <<Fa>>), MutO(3, "sub", <<1, I(0)>>), MutO(3, "sub", <<2, Tr>>),
               MutO(6, "sub", <<1, I(0)>>), MutO(6, "sub", <<2, En(1)>>), MutO(6, "subclear", <<1>>), MutO(7, "sub", <<1, Str(Bb)>>), MutO(11, "push", <<En(7)>>)}
Removes == {[o |-> k, n |-> n] : k \in {"clear", "take"}, n \in DOMAIN F}
(* a = 0; x = 0; y { a = 0 }; y { x = 1 }; y {}; r: 0 unpacked; r: packed 0 -1; q {}; q { key 1 value { a: 1 } }; z {}; z { a: 0 }; z { e: 1 };  *)
(* g { t: "" }; unknown 9 varint, fixed32; the extension e = ""; f: packed 1; x and then y; y and then x                                      *)
Bytes0 == {<<8, 0>>, <<16, 0>>, <<26, 2, 8, 0>>, <<26, 2, 16, 1>>, <<26, 0>>, <<32, 0>>, <<34, 2, 0, 1>>, <<42, 0>>, <<42, 6, 8, 1, 18, 2, 8, 1>>, <<50, 0>>, <<50, 2, 8, 0>>, <<50, 2, 16, 1>>,
           <<59, 10, 0, 60>>, <<72, 0>>, <<82, 0>>, <<90, 1, 1>>, <<16, 1, 26, 0>>, <<26, 0, 16, 0>>}
(* refused: cut off, bad wire type, unbalanced group, bad length *)
Bytes1 == {<<8>>, <<10, 0>>, <<59>>, <<60>>, <<26, 2, 8>>, <<42, 2, 10, 0>>, <<0, 0>>, <<80, 0>>}
Rest == {[o |-> "clearall"], [o |-> "drain", kind |-> "f", k |-> 1], [o |-> "drain", kind |-> "f", k |-> 100], [o |-> "drain", kind |-> "e", k |-> 1], [o |-> "drain", kind |-> "u", k |-> 1000],
         [o |-> "itermut", a |-> << <<1, I(5)>>, <<4, ListV(<<>>)>>, <<6, Zv(<<>>)>> >>]}
Menu == Basic \cup Wrong \cup Mutes \cup Removes \cup {MergeO(b) : b \in Bytes0} \cup {MergeO(b) : b \in Bytes1} \cup Rest

(* ---- transitions: the content after an operation; <<>> when nothing is said of it ---- *)
After(op) ==
    CASE op.o = "set" -> IF ValidFor(MT, F[op.n], op.v) THEN <<SetF(MT, content, F[op.n], op.v)>> ELSE <<content>>
      [] op.o = "mut" -> <<SetF(MT, content, F[op.n], Acted(MT, F[op.n], Current(content, F[op.n]), op))>>
      [] op.o \in {"clear", "take"} -> <<ClearF(content, F[op.n])>>
      [] op.o = "merge" -> LET r == Merge(MT, content, op.b) IN IF r.ok THEN <<r.v>> ELSE <<>>
      [] op.o = "clearall" -> <<Nv(<<>>)>>
      [] op.o = "drain" -> IF op.kind = "u" THEN <<[content EXCEPT !.m = SelectSeq(@, LAMBDA x : x.k # "u")]>>
                           ELSE LET es == SetEntries(MT, content, op.kind = "e")  k == IF op.k < Len(es) THEN op.k ELSE Len(es) IN <<Del(content, {es[i].n : i \in 1..k})>>
      [] OTHER -> <<AssignAll(content, SelectSeq(op.a, LAMBDA x : Has(content, F[x[1]])), 1)>>
(* the part of the space that is explored *)
RECURSIVE SmallV(_, _)
SmallV(v, d) == CASE v.t = "list" -> Len(v.l) <= (IF Deep THEN 2 ELSE 1)
                  [] v.t = "msg" -> (d > 0 \/ v.m = <<>>) /\ \A i \in DOMAIN v.m : IF v.m[i].k = "u" THEN Len(v.m[i].u) <= 1 ELSE SmallV(v.m[i].v, d - 1)
                  [] OTHER -> TRUE
Small == Len(content.m) <= Fields /\ SmallV(content, 2)
Init == content = Nv(<<>>) /\ trail = <<>>
Step(op) == LET r == After(op) IN r # <<>> /\ content' = r[1] /\ trail' = Append(trail, op)
Next == Small /\ \E op \in Menu : Step(op)
Spec == Init /\ [][Next]_vars
View == content
Show == PrintT("HIST " \o ToJson(trail))
ASSUME PrintT("MENU " \o ToJson(Menu))

(* ---- what the laws are stated with ---- *)
X == Norm(MT, content)
RECURSIVE Doc(_)
(* a document written as prescribed, as it is read *)
Doc(x) == CASE x.j = "int" -> [j |-> "num", iv |-> <<x.i>>, pl |-> TRUE, d |-> <<>>, f |-> <<>>]
            [] x.j = "str" -> [j |-> "str", s |-> x.s, fw |-> <<>>]
            [] x.j = "arr" -> ArrN([i \in DOMAIN x.a |-> Doc(x.a[i])])
            [] x.j = "obj" -> ObjN([i \in DOMAIN x.o |-> <<x.o[i][1], Doc(x.o[i][2])>>])
            [] OTHER -> x
RECURSIVE Flat(_)
Flat(cs) == Concat([i \in DOMAIN cs |-> IF cs[i].c = "b" THEN cs[i].b ELSE
                LET it == cs[i].items IN Concat([k \in DOMAIN it |-> (IF k = 1 THEN <<>> ELSE cs[i].sep) \o Flat(it[k])])])
JOpts == [s64 : {TRUE}, enumnum : BOOLEAN, protoname : {FALSE}, skipdef : BOOLEAN]
TOpts == [pretty : BOOLEAN, index : BOOLEAN, skipdef : BOOLEAN, skipunk : {TRUE}, any : {FALSE}]
NoUnknowns(v) == [v EXCEPT !.m = SelectSeq(@, LAMBDA e : e.k = "v")]
Probes == {MergeO(b) : b \in Bytes0}
Reads(b) == LET r == ReadSet(b, 1, <<>>) IN IF r.ok THEN {r.v[i].n : i \in DOMAIN r.v} ELSE {-1}

(* ---- the laws ---- *)
TypesOK == WellTyped(MT, content)
OneOfEach == OneofOK(MT, content)
(* encoding and decoding: W01, W05 *)
WireRound == LET r == Decode(MT, N, Encode(MT, content)) IN r.ok /\ Norm(MT, r.v) = X
(* canonical bytes: encoding does not depend on what is not observable *)
WireCanon == Encode(MT, content) = Encode(MT, X)
(* decoding concatenated encodings is merging: W04 *)
WireConcat == \A b \in Bytes0 : LET r == Decode(MT, N, Encode(MT, content) \o b)  s == Merge(MT, X, b) IN r.ok = s.ok /\ (r.ok => r.v = s.v)
WireAssoc == \A a \in Bytes0, b \in Bytes0 : LET r == Merge(MT, content, a \o b)  s == Merge(MT, content, a) IN r.ok /\ r.v = Merge(MT, s.v, b).v
(* presence, iteration and output agree: M03 *)
Agree == LET set == {n \in DOMAIN F : Has(content, F[n])}
             shown == Doc(MsgNode(C, [s64 |-> TRUE, enumnum |-> FALSE, protoname |-> FALSE, skipdef |-> TRUE], X))
             es == SetEntries(MT, content, FALSE) \o SetEntries(MT, content, TRUE)
         IN /\ Reads(Encode(MT, content)) \cap DOMAIN F = set
            /\ {shown.o[i][1] : i \in DOMAIN shown.o} = {F[n].jb : n \in set}
            /\ {es[i].n : i \in DOMAIN es} = set /\ Len(es) = Cardinality(set)
(* JSON and text give back what they carry: J01, T01 *)
JsonRound == \A o \in JOpts : LET r == MsgFrom(C, N, Doc(MsgNode(C, o, X)), TRUE) IN r.ok /\ Carried(C, Norm(MT, r.v[1]), TRUE) = Carried(C, X, TRUE)
TextRound == \A o \in TOpts : LET r == ReadText(C, Nv(<<>>), Flat(BodyT(C, o, X, 0)), <<>>) IN r.ok /\ Kept(C, Norm(MT, r.v)) = Kept(C, X)

(* an operation changes nothing but its field and, when it makes that present, the rest of its oneof: M01, M02 *)
Touched(op) == CASE op.o \in {"set", "mut", "clear", "take"} -> {op.n} \cup (IF op.o \in {"set", "mut"} THEN Siblings(MT, N, F[op.n]) ELSE {})
               [] op.o = "merge" -> LET r == Reads(op.b) IN r \cup UNION {Siblings(MT, N, F[n]) : n \in r \cap DOMAIN F}
               [] op.o = "itermut" -> {op.a[i][1] : i \in DOMAIN op.a}
               [] op.o = "drain" -> IF op.kind = "f" THEN DOMAIN MT[N].f ELSE IF op.kind = "e" THEN DOMAIN MT[N].x ELSE {9}
               [] OTHER -> 1..20
Holds(v, n) == LET i == At(v, n) IN IF i = 0 THEN <<>> ELSE <<v.m[i]>>
Frame == [][\A n \in 1..20 : n \notin Touched(trail'[Len(trail')]) => Holds(content', n) = Holds(content, n)]_vars
(* and afterwards the field holds what was put there *)
Puts == [][LET op == trail'[Len(trail')] IN
           CASE op.o = "set" -> (IF ValidFor(MT, F[op.n], op.v) THEN Current(content', F[op.n]) = op.v ELSE content' = content)
             [] op.o \in {"clear", "take"} -> ~Has(content', F[op.n]) /\ Current(content', F[op.n]) = F[op.n].dflt
             [] OTHER -> TRUE]_vars
=============================================================================
