------------------------------- MODULE Schema -------------------------------
(* What a set of .proto files means: names, scoping, visibility, validity   *)
(* and the facts about every field.  Input is the raw schema (see the       *)
(* harness's schema.rs): it is not taken from the code under test.          *)
EXTENDS Bits

Opt(x, d) == IF x = <<>> THEN d ELSE x[1]
Dot(p, n) == IF p = "" THEN n ELSE p \o "." \o n
RECURSIVE JoinFrom(_, _, _)
JoinFrom(segs, i, acc) == IF i > Len(segs) THEN acc ELSE JoinFrom(segs, i + 1, acc \o "." \o segs[i])
JoinSegs(segs) == IF segs = <<>> THEN "" ELSE JoinFrom(segs, 2, segs[1])
Front(s) == SubSeq(s, 1, Len(s) - 1)
(* the part of a dotted name after its last dot *)
LastSeg(n) == LET d == {i \in 1..Len(n) : SubSeq(n, i, i) = "."} IN IF d = {} THEN n ELSE SubSeq(n, (CHOOSE i \in d : \A j \in d : j <= i) + 1, Len(n))

FName(f) == Opt(f.name, "")
PkgOf(f) == JoinSegs(f.pkg)
IsProto3(f) == f.syntax = <<"proto3">>
NameOf(d) == Opt(d.name, "")

(* ---- flattened definitions, in the order of the pool's indices ---- *)
RECURSIVE FlatMsg(_, _, _, _, _)
FlatMsg(f, m, scope, path, parent) ==
    LET segs == Append(scope, NameOf(m))
        full == JoinSegs(segs)
    IN <<[fn |-> FName(f), p3 |-> IsProto3(f), m |-> m, segs |-> segs, full |-> full, path |-> path, parent |-> parent, pkg |-> PkgOf(f)]>>
       \o Concat([i \in DOMAIN m.msgs |-> FlatMsg(f, m.msgs[i], segs, path \o <<3, i - 1>>, full)])
FileMsgs(f) == Concat([i \in DOMAIN f.msgs |-> FlatMsg(f, f.msgs[i], f.pkg, <<4, i - 1>>, "")])

EnumRec(f, e, scope, path, parent) ==
    [fn |-> FName(f), p3 |-> IsProto3(f), e |-> e, scope |-> scope, full |-> JoinSegs(Append(scope, NameOf(e))), path |-> path, parent |-> parent, pkg |-> PkgOf(f)]
RECURSIVE MsgEnums(_, _, _, _)
MsgEnums(f, m, scope, path) ==
    LET segs == Append(scope, NameOf(m))
    IN Concat([i \in DOMAIN m.msgs |-> MsgEnums(f, m.msgs[i], segs, path \o <<3, i - 1>>)])
       \o [i \in DOMAIN m.enums |-> EnumRec(f, m.enums[i], segs, path \o <<4, i - 1>>, JoinSegs(segs))]
FileEnums(f) == Concat([i \in DOMAIN f.msgs |-> MsgEnums(f, f.msgs[i], f.pkg, <<4, i - 1>>)])
                \o [i \in DOMAIN f.enums |-> EnumRec(f, f.enums[i], f.pkg, <<5, i - 1>>, "")]

ExtRec(f, x, scope, path, parent) ==
    [fn |-> FName(f), p3 |-> IsProto3(f), x |-> x, segs |-> Append(scope, NameOf(x)), full |-> JoinSegs(Append(scope, NameOf(x))), path |-> path, parent |-> parent, pkg |-> PkgOf(f)]
RECURSIVE MsgExts(_, _, _, _)
MsgExts(f, m, scope, path) ==
    LET segs == Append(scope, NameOf(m))
    IN Concat([i \in DOMAIN m.msgs |-> MsgExts(f, m.msgs[i], segs, path \o <<3, i - 1>>)])
       \o [i \in DOMAIN m.exts |-> ExtRec(f, m.exts[i], segs, path \o <<6, i - 1>>, JoinSegs(segs))]
FileExts(f) == Concat([i \in DOMAIN f.msgs |-> MsgExts(f, f.msgs[i], f.pkg, <<4, i - 1>>)])
               \o [i \in DOMAIN f.exts |-> ExtRec(f, f.exts[i], f.pkg, <<7, i - 1>>, "")]
FileSvcs(f) == [i \in DOMAIN f.svcs |-> [fn |-> FName(f), s |-> f.svcs[i], segs |-> Append(f.pkg, NameOf(f.svcs[i])),
                                          full |-> JoinSegs(Append(f.pkg, NameOf(f.svcs[i]))), path |-> <<6, i - 1>>, pkg |-> PkgOf(f)]]

(* ---- the flat name space ---- *)
NR(n, k, f, p) == [n |-> n, k |-> k, fn |-> f, path |-> p]
PkgNames(f) == [i \in 1..Len(f.pkg) |-> NR(JoinSegs(SubSeq(f.pkg, 1, i)), "pkg", FName(f), <<2>>)]
(* each with the place of its name *)
NamesOfFile(f) ==
    LET ms == FileMsgs(f)  es == FileEnums(f)  xs == FileExts(f)  ss == FileSvcs(f)  fn == FName(f)
    IN PkgNames(f)
       \o [i \in DOMAIN ms |-> NR(ms[i].full, "msg", fn, Append(ms[i].path, 1))]
       \o Concat([i \in DOMAIN ms |-> [j \in DOMAIN ms[i].m.fields |-> NR(Dot(ms[i].full, NameOf(ms[i].m.fields[j])), "field", fn, ms[i].path \o <<2, j - 1, 1>>)]])
       \o Concat([i \in DOMAIN ms |-> [j \in DOMAIN ms[i].m.oneofs |-> NR(Dot(ms[i].full, Opt(ms[i].m.oneofs[j], "")), "oneof", fn, ms[i].path \o <<8, j - 1, 1>>)]])
       \o [i \in DOMAIN es |-> NR(es[i].full, "enum", fn, Append(es[i].path, 1))]
       \o Concat([i \in DOMAIN es |-> [j \in DOMAIN es[i].e.vals |-> NR(JoinSegs(Append(es[i].scope, NameOf(es[i].e.vals[j]))), "val", fn, es[i].path \o <<2, j - 1, 1>>)]])
       \o [i \in DOMAIN xs |-> NR(xs[i].full, "ext", fn, Append(xs[i].path, 1))]
       \o [i \in DOMAIN ss |-> NR(ss[i].full, "svc", fn, Append(ss[i].path, 1))]
       \o Concat([i \in DOMAIN ss |-> [j \in DOMAIN ss[i].s.methods |-> NR(Dot(ss[i].full, NameOf(ss[i].s.methods[j])), "method", fn, ss[i].path \o <<2, j - 1, 1>>)]])
AllNames(fs) == Concat([i \in DOMAIN fs |-> NamesOfFile(fs[i])])
(* two definitions clash unless both are packages *)
NameClash(all) == \E i \in DOMAIN all : \E j \in (i + 1)..Len(all) : all[i].n = all[j].n /\ ~(all[i].k = "pkg" /\ all[j].k = "pkg")
NameTab(all) == LET dom == {all[i].n : i \in DOMAIN all}
                IN [x \in dom |-> LET i == CHOOSE i \in DOMAIN all : all[i].n = x /\ \A j \in 1..(i - 1) : all[j].n # x IN all[i]]

(* ---- visibility: own file, direct imports, and their public imports at any depth ---- *)
FileTab(fs) == [n \in {FName(fs[i]) : i \in DOMAIN fs} |-> fs[CHOOSE i \in DOMAIN fs : FName(fs[i]) = n]]
PublicDeps(f) == {f.deps[f.pub[i] + 1] : i \in {j \in DOMAIN f.pub : 0 <= f.pub[j] /\ f.pub[j] < Len(f.deps)}}
RECURSIVE PubClosure(_, _, _)
PubClosure(ft, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET n == CHOOSE x \in todo : TRUE
             new == (PublicDeps(ft[n]) \cap DOMAIN ft) \ seen
         IN PubClosure(ft, (todo \cup new) \ {n}, seen \cup new)
Visible(ft, f) == LET d == SeqToSet(f.deps) \cap DOMAIN ft IN {FName(f)} \cup PubClosure(ft, d, d)

(* ---- protobuf scoping ---- *)
IsPrefixSeq(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
TypeKinds == {"msg", "enum"}
ParentKinds == {"pkg", "msg", "enum", "svc"}
Found(env, n, want) == n \in DOMAIN env.tab /\ env.tab[n].fn \in env.vis /\ env.tab[n].k \in want
PkgSeen(env, segs) == \E p \in env.pkgs : IsPrefixSeq(segs, p)
ParentSeen(env, segs) == LET n == JoinSegs(segs) IN
    /\ n \in DOMAIN env.tab
    /\ env.tab[n].k \in ParentKinds
    /\ (env.tab[n].fn \in env.vis \/ (env.tab[n].k = "pkg" /\ PkgSeen(env, segs)))
RECURSIVE ResolveRel(_, _, _, _)
ResolveRel(env, scope, ref, want) ==
    LET full == scope \o ref
        out == IF scope = <<>> THEN "" ELSE ResolveRel(env, Front(scope), ref, want)
    IN IF Len(ref) = 1
       THEN IF Found(env, JoinSegs(full), want) THEN JoinSegs(full) ELSE out
       ELSE IF ParentSeen(env, Append(scope, ref[1]))
            THEN IF Found(env, JoinSegs(full), want) THEN JoinSegs(full) ELSE ""
            ELSE out
(* "" when the reference does not resolve *)
Resolve(env, scope, ref, want) ==
    IF ref = <<>> THEN ""
    ELSE IF ref[1].abs THEN (IF Found(env, JoinSegs(ref[1].segs), want) THEN JoinSegs(ref[1].segs) ELSE "")
    ELSE ResolveRel(env, scope, ref[1].segs, want)
EnvOf(fs, ft, tab, f) == LET vis == Visible(ft, f) IN [tab |-> tab, vis |-> vis, pkgs |-> {ft[n].pkg : n \in vis}]

(* ---- JSON names ---- *)
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerSet == {SubSeq(Lower, i, i) : i \in 1..26}
UpperSet == {SubSeq(Upper, i, i) : i \in 1..26}
ToUpperTab == [c \in LowerSet |-> LET i == CHOOSE i \in 1..26 : SubSeq(Lower, i, i) = c IN SubSeq(Upper, i, i)]
ToLowerTab == [c \in UpperSet |-> LET i == CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c IN SubSeq(Lower, i, i)]
UpC(c) == IF c \in LowerSet THEN ToUpperTab[c] ELSE c
LowC(c) == IF c \in UpperSet THEN ToLowerTab[c] ELSE c
RECURSIVE JsonNameFrom(_, _, _, _)
JsonNameFrom(s, i, up, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET c == SubSeq(s, i, i) IN
         IF c = "_" THEN JsonNameFrom(s, i + 1, TRUE, acc)
         ELSE JsonNameFrom(s, i + 1, FALSE, acc \o (IF up THEN UpC(c) ELSE c))
JsonNameOf(s) == JsonNameFrom(s, 1, FALSE, "")
RECURSIVE FlatNameFrom(_, _, _)
FlatNameFrom(s, i, acc) == IF i > Len(s) THEN acc
    ELSE LET c == SubSeq(s, i, i) IN FlatNameFrom(s, i + 1, IF c = "_" THEN acc ELSE acc \o LowC(c))
FlatName(s) == FlatNameFrom(s, 1, "")
FieldJson(d) == IF d.json # <<>> THEN d.json[1] ELSE JsonNameOf(NameOf(d))

(* ---- kinds ---- *)
KindName == <<"double", "float", "int64", "uint64", "int32", "fixed64", "fixed32", "bool", "string", "group", "message", "bytes",
              "uint32", "enum", "sfixed32", "sfixed64", "sint32", "sint64">>
ScalarTys == {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 18}
Tag(kind) == CASE kind \in {"int32", "sint32", "sfixed32"} -> "i32"
               [] kind \in {"int64", "sint64", "sfixed64"} -> "i64"
               [] kind \in {"uint32", "fixed32"} -> "u32"
               [] kind \in {"uint64", "fixed64"} -> "u64"
               [] kind = "double" -> "f64"
               [] kind = "float" -> "f32"
               [] kind = "bool" -> "bool"
               [] kind = "string" -> "string"
               [] kind = "bytes" -> "bytes"
               [] kind = "enum" -> "enum"
               [] OTHER -> "msg"
KeyKinds == {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}
Packable(kind) == kind \notin {"string", "bytes", "message"}
Width(tag) == CASE tag = "bool" -> 1 [] tag \in {"i32", "u32", "f32", "enum"} -> 4 [] tag \in {"i64", "u64", "f64"} -> 8 [] OTHER -> 0
S(t, b) == [t |-> t, s |-> b]
MsgV(n, es) == [t |-> "msg", n |-> n, m |-> es]
ListV(l) == [t |-> "list", l |-> l]
MapV(p) == [t |-> "map", p |-> p]

(* ---- default values (descriptor.proto's textual form) ---- *)
IsDigitC(c) == c >= 48 /\ c <= 57
AllDigits(b) == b # <<>> /\ \A i \in DOMAIN b : IsDigitC(b[i])
DigitVals(b) == [i \in DOMAIN b |-> b[i] - 48]
Unsign(b) == IF b # <<>> /\ b[1] \in {43, 45} THEN Tail(b) ELSE b
HasMinus(b) == b # <<>> /\ b[1] = 45
MinSigned(k) == [i \in 1..k |-> IF i = k THEN 128 ELSE 0]
NoVal == [ok |-> FALSE]
Yes(v) == [ok |-> TRUE, v |-> v]
ParseUnsigned(b, k) == IF ~AllDigits(IF HasMinus(b) THEN <<>> ELSE Unsign(b)) THEN NoVal
                       ELSE LET d == DigitsToBytes(DigitVals(Unsign(b)), 10, k) IN IF d.ok THEN Yes(d.b) ELSE NoVal
ParseSigned(b, k) ==
    IF ~AllDigits(Unsign(b)) THEN NoVal
    ELSE LET d == DigitsToBytes(DigitVals(Unsign(b)), 10, k)
         IN IF ~d.ok THEN NoVal
            ELSE IF HasMinus(b) THEN (IF Leq(d.b, MinSigned(k)) THEN Yes(Negate(d.b)) ELSE NoVal)
            ELSE IF IsNeg(d.b) THEN NoVal ELSE Yes(d.b)
LowB(b) == [i \in DOMAIN b |-> IF b[i] >= 65 /\ b[i] <= 90 THEN b[i] + 32 ELSE b[i]]
InfB == <<105, 110, 102>>
InfinityB == <<105, 110, 102, 105, 110, 105, 116, 121>>
NanB == <<110, 97, 110>>
RECURSIVE SpanDigits(_, _)
SpanDigits(b, i) == IF i \in DOMAIN b /\ IsDigitC(b[i]) THEN SpanDigits(b, i + 1) ELSE i
(* decimal floating point: digits [. digits] [e [sign] digits], a digit on some side of the point *)
FloatGrammar(b) ==
    LET i1 == SpanDigits(b, 1)
        dot == i1 \in DOMAIN b /\ b[i1] = 46
        i2 == IF dot THEN SpanDigits(b, i1 + 1) ELSE i1
        mant == (i1 > 1) \/ (dot /\ i2 > i1 + 1)
        e == i2 \in DOMAIN b /\ b[i2] \in {69, 101}
        i3 == IF e /\ (i2 + 1) \in DOMAIN b /\ b[i2 + 1] \in {43, 45} THEN i2 + 2 ELSE i2 + 1
        i4 == IF e THEN SpanDigits(b, i3) ELSE i2
    IN mant /\ (IF e THEN i4 > i3 /\ i4 = Len(b) + 1 ELSE i2 = Len(b) + 1)
F64Bits(sign, hi, hi2) == <<0, 0, 0, 0, 0, 0, hi2, hi + (IF sign THEN 128 ELSE 0)>>
InfBits(w, sign) == IF w = 8 THEN <<0, 0, 0, 0, 0, 0, 240, IF sign THEN 255 ELSE 127>> ELSE <<0, 0, 128, IF sign THEN 255 ELSE 127>>
NanBits(w) == IF w = 8 THEN <<0, 0, 0, 0, 0, 0, 248, 127>> ELSE <<0, 0, 192, 127>>
IsNanBits(b) == LET n == Len(b) IN
    IF n = 8 THEN b[8] % 128 = 127 /\ b[7] >= 240 /\ ~(b[7] = 240 /\ \A i \in 1..6 : b[i] = 0)
    ELSE b[4] % 128 = 127 /\ b[3] >= 128 /\ ~(b[3] = 128 /\ \A i \in 1..2 : b[i] = 0)
IsInfBits(b) == b = InfBits(Len(b), TRUE) \/ b = InfBits(Len(b), FALSE)
IsZeroFloat(b) == \A i \in DOMAIN b : b[i] = 0 \/ (i = Len(b) /\ b[i] = 128)
ParseFloatDflt(b, w, wit) ==
    LET u == LowB(Unsign(b)) IN
    IF u = InfB \/ u = InfinityB THEN Yes(InfBits(w, HasMinus(b)))
    ELSE IF u = NanB THEN Yes(IF HasMinus(b) THEN [NanBits(w) EXCEPT ![w] = 255] ELSE NanBits(w))
    ELSE IF FloatGrammar(Unsign(b)) THEN Yes(wit[IF w = 8 THEN 1 ELSE 2]) ELSE NoVal
IsOct(c) == c >= 48 /\ c <= 55
HexVal(c) == IF IsDigitC(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
SimpleEsc == (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (118 :> 11) @@ (92 :> 92) @@ (63 :> 63) @@ (39 :> 39) @@ (34 :> 34)
RECURSIVE Unescape(_, _, _)
Unescape(b, i, acc) ==
    IF i > Len(b) THEN Yes(acc)
    ELSE IF b[i] # 92 THEN Unescape(b, i + 1, Append(acc, b[i]))
    ELSE IF i = Len(b) THEN NoVal
    ELSE LET c == b[i + 1] IN
      IF c \in DOMAIN SimpleEsc THEN Unescape(b, i + 2, Append(acc, SimpleEsc[c]))
      ELSE IF IsOct(c) THEN
           LET n2 == (i + 2) \in DOMAIN b /\ IsOct(b[i + 2])
               n3 == n2 /\ (i + 3) \in DOMAIN b /\ IsOct(b[i + 3])
               v == IF n3 THEN 64 * (c - 48) + 8 * (b[i + 2] - 48) + b[i + 3] - 48 ELSE IF n2 THEN 8 * (c - 48) + b[i + 2] - 48 ELSE c - 48
           IN IF v > 255 THEN NoVal ELSE Unescape(b, i + (IF n3 THEN 4 ELSE IF n2 THEN 3 ELSE 2), Append(acc, v))
      ELSE IF c \in {88, 120} THEN
           IF i + 3 > Len(b) \/ HexVal(b[i + 2]) < 0 \/ HexVal(b[i + 3]) < 0 THEN NoVal
           ELSE Unescape(b, i + 4, Append(acc, 16 * HexVal(b[i + 2]) + HexVal(b[i + 3])))
      ELSE NoVal
TrueB == <<116, 114, 117, 101>>
FalseB == <<102, 97, 108, 115, 101>>
(* [ok, v]: the value a textual default denotes for a scalar kind *)
ParseDefault(kind, b, wit) ==
    LET t == Tag(kind)
        R(p) == IF p.ok THEN Yes(S(t, p.v)) ELSE NoVal
    IN CASE t \in {"i32", "i64"} -> R(ParseSigned(b, Width(t)))
         [] t \in {"u32", "u64"} -> R(ParseUnsigned(b, Width(t)))
         [] t \in {"f32", "f64"} -> R(ParseFloatDflt(b, Width(t), wit))
         [] t = "bool" -> IF b = TrueB THEN Yes(S(t, <<1>>)) ELSE IF b = FalseB THEN Yes(S(t, <<0>>)) ELSE NoVal
         [] t = "string" -> Yes(S(t, b))
         [] t = "bytes" -> R(Unescape(b, 1, <<>>))
         [] OTHER -> NoVal

(* ---- enums ---- *)
EnumNum(v) == Opt(v.num, 0)
EnumInfo(r) == [full |-> r.full, fn |-> r.fn,
                vals |-> [i \in DOMAIN r.e.vals |-> [name |-> NameOf(r.e.vals[i]), num |-> EnumNum(r.e.vals[i])]]]
EnumTab(fs) == LET es == Concat([i \in DOMAIN fs |-> FileEnums(fs[i])])
               IN [n \in {es[i].full : i \in DOMAIN es} |-> EnumInfo(es[CHOOSE i \in DOMAIN es : es[i].full = n])]

(* ---- fields ---- *)
EntrySet(ms) == {ms[i].full : i \in {j \in DOMAIN ms : ms[j].m.mapentry}}

(* type of a field: [ok, kind, group, tn] *)
FieldType(env, d, scope) ==
    IF d.tname = <<>> THEN
        LET ty == IF d.ty = 0 THEN 1 ELSE d.ty
        IN IF ty \in ScalarTys THEN [ok |-> TRUE, kind |-> KindName[ty], group |-> FALSE, tn |-> ""]
           ELSE [ok |-> FALSE, kind |-> "double", group |-> FALSE, tn |-> ""]
    ELSE LET n == Resolve(env, scope, d.tname, TypeKinds) IN
         IF n = "" THEN [ok |-> FALSE, kind |-> "double", group |-> FALSE, tn |-> ""]
         ELSE IF env.tab[n].k = "enum" THEN [ok |-> TRUE, kind |-> "enum", group |-> FALSE, tn |-> n]
         ELSE [ok |-> TRUE, kind |-> "message", group |-> d.ty = 10, tn |-> n]

ZeroOf(kind, tn, enums) ==
    CASE kind = "message" -> MsgV(tn, <<>>)
      [] kind = "enum" -> S("enum", IntBytes(enums[tn].vals[1].num, 4))
      [] OTHER -> S(Tag(kind), Zeros[Width(Tag(kind))])

DefaultOf(d, ft, enums) ==
    IF d.dflt = <<>> THEN Yes(ZeroOf(ft.kind, ft.tn, enums))
    ELSE IF ft.kind = "enum" THEN
         LET vs == enums[ft.tn].vals
             p == PositionOf(vs, LAMBDA v : d.dstr # <<>> /\ v.name = d.dstr[1])
         IN IF p = 0 THEN NoVal ELSE Yes(S("enum", IntBytes(vs[p].num, 4)))
    ELSE IF ft.kind = "message" THEN NoVal
    ELSE ParseDefault(ft.kind, d.dflt[1], d.wf)

Label(d) == IF d.label = 0 THEN 1 ELSE d.label
FieldInfo(env, d, scope, p3, isExt, entries, enums) ==
    LET ft == FieldType(env, d, scope)
        rep == Label(d) = 3
        isMap == rep /\ ft.kind = "message" /\ ft.tn \in entries
        isList == rep /\ ~isMap
        df == DefaultOf(d, ft, enums)
        full == JoinSegs(scope)
        jn == IF isExt THEN "[" \o full \o "]" ELSE FieldJson(d)
    IN [tyok |-> ft.ok, ok |-> ft.ok /\ (d.dflt = <<>> \/ (ft.ok /\ df.ok)),
        num |-> Opt(d.num, 0), name |-> NameOf(d), nb |-> AsciiBytes(NameOf(d)), json |-> jn, jb |-> AsciiBytes(jn), full |-> full,
        kind |-> ft.kind, group |-> ft.group, tn |-> ft.tn, card |-> Label(d),
        list |-> isList, map |-> isMap,
        packed |-> rep /\ Packable(ft.kind) /\ Opt(d.packed, p3),
        pres |-> IF isExt THEN ~rep ELSE d.p3opt \/ d.oneof # <<>> \/ (~rep /\ (ft.kind = "message" \/ ~p3)),
        oneof |-> IF isExt \/ d.oneof = <<>> THEN 0 ELSE IF d.oneof[1] > 1000000 THEN -1 ELSE d.oneof[1] + 1,
        p3opt |-> d.p3opt,
        ext |-> isExt,
        dflt |-> IF isMap THEN MapV(<<>>) ELSE IF isList THEN ListV(<<>>) ELSE IF df.ok THEN df.v ELSE S("bool", <<0>>)]

SortBy(s, Key(_)) == SortSeq(s, LAMBDA a, b : Key(a) < Key(b))

(* everything derived from one accepted set of files *)
Tables(fs) ==
    LET all == AllNames(fs)
        tab == NameTab(all)
        ft == FileTab(fs)
        ms == Concat([i \in DOMAIN fs |-> FileMsgs(fs[i])])
        xs == Concat([i \in DOMAIN fs |-> FileExts(fs[i])])
        enums == EnumTab(fs)
        entries == EntrySet(ms)
        envs == [n \in DOMAIN ft |-> EnvOf(fs, ft, tab, ft[n])]
        xi == [i \in DOMAIN xs |-> [f |-> FieldInfo(envs[xs[i].fn], xs[i].x, xs[i].segs, xs[i].p3, TRUE, entries, enums),
                                    to |-> Resolve(envs[xs[i].fn], xs[i].segs, xs[i].x.extendee, {"msg"})]]
        Info(r) ==
            LET idx == [j \in DOMAIN r.m.fields |-> FieldInfo(envs[r.fn], r.m.fields[j], Append(r.segs, NameOf(r.m.fields[j])), r.p3, FALSE, entries, enums)]
                srt == SortBy(idx, LAMBDA f : f.num)
                mine == SelectSeq(xi, LAMBDA x : x.to = r.full)
                ex == [j \in DOMAIN mine |-> mine[j].f]
            IN [full |-> r.full, entry |-> r.m.mapentry, idx |-> idx, byn |-> srt,
                f |-> [n \in {idx[j].num : j \in DOMAIN idx} |-> idx[CHOOSE j \in DOMAIN idx : idx[j].num = n]],
                x |-> [n \in {ex[j].num : j \in DOMAIN ex} |-> ex[CHOOSE j \in DOMAIN ex : ex[j].num = n]],
                names |-> [n \in {idx[j].name : j \in DOMAIN idx} |-> (CHOOSE f \in SeqToSet(idx) : f.name = n).num],
                jsons |-> [n \in {idx[j].json : j \in DOMAIN idx} |-> (CHOOSE f \in SeqToSet(idx) : f.json = n).num],
                xnames |-> [n \in {ex[j].full : j \in DOMAIN ex} |-> (CHOOSE f \in SeqToSet(ex) : f.full = n).num],
                sibs |-> [j \in DOMAIN r.m.oneofs |-> {idx[k].num : k \in {h \in DOMAIN idx : idx[h].oneof = j}}]]
    IN [files |-> fs, tab |-> tab, ft |-> ft, enums |-> enums, msgs |-> ms, exts |-> xs, xinfo |-> xi, envs |-> envs, entries |-> entries,
        mt |-> [n \in {ms[i].full : i \in DOMAIN ms} |-> Info(ms[CHOOSE i \in DOMAIN ms : ms[i].full = n])]]
=============================================================================
