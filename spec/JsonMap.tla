------------------------------- MODULE JsonMap -------------------------------
(* The proto3 JSON mapping.  A JSON document is a tree of nodes               *)
(*   [j |-> "null"], [j |-> "bool", b], [j |-> "str", s, fw],                  *)
(*   [j |-> "num", d, f, iv, pl], [j |-> "arr", a], [j |-> "obj", o]           *)
(* where o is a sequence of <<key, node>>, d / f are the nearest double / float*)
(* of a number (<<>> when out of range), iv its exact decimal digits when it   *)
(* is an integer, pl whether it is written without point and exponent, and fw  *)
(* the numeric value of a string that reads as a number.                      *)
(* C is the context [mt |-> message table, en |-> enums, ew |-> alias names].  *)
EXTENDS Wire

NullN == [j |-> "null"]
BoolN(b) == [j |-> "bool", b |-> b]
IntN(i) == [j |-> "int", i |-> i]
StrN(s) == [j |-> "str", s |-> s]
FltN(t, s) == [j |-> t, s |-> s]
ArrN(a) == [j |-> "arr", a |-> a]
ObjN(o) == [j |-> "obj", o |-> o]
ErrN == [j |-> "err"]
RECURSIVE HasErr(_)
HasErr(x) == CASE x.j = "err" -> TRUE
               [] x.j = "arr" -> \E i \in DOMAIN x.a : HasErr(x.a[i])
               [] x.j = "obj" -> \E i \in DOMAIN x.o : HasErr(x.o[i][2])
               [] OTHER -> FALSE

(* does the observed tree y have the form x prescribes? objects are unordered *)
RECURSIVE Match(_, _)
Match(x, y) ==
    CASE x.j = "null" -> y.j = "null"
      [] x.j = "bool" -> y.j = "bool" /\ y.b = x.b
      [] x.j = "int" -> y.j = "num" /\ y.pl /\ y.iv = <<x.i>>
      [] x.j = "f64" -> y.j = "num" /\ y.d = x.s
      [] x.j = "f32" -> y.j = "num" /\ y.f = x.s
      [] x.j = "zero" -> y.j = "num" /\ y.d # <<>> /\ IsZeroFloat(y.d)
      [] x.j = "str" -> y.j = "str" /\ y.s = x.s
      [] x.j = "arr" -> y.j = "arr" /\ Len(y.a) = Len(x.a) /\ \A i \in DOMAIN x.a : Match(x.a[i], y.a[i])
      [] x.j = "obj" -> y.j = "obj" /\ Len(y.o) = Len(x.o)
                        /\ (\A i \in DOMAIN x.o : \E k \in DOMAIN y.o : y.o[k][1] = x.o[i][1] /\ Match(x.o[i][2], y.o[k][2]))
                        /\ Cardinality({y.o[k][1] : k \in DOMAIN y.o}) = Len(y.o)
      [] OTHER -> FALSE

(* ---- strings ---- *)
B(s) == AsciiBytes(s)
PosInfB == B("Infinity")
NegInfB == B("-Infinity")
NaNB == B("NaN")
TypeB == B("@type")
ValueB == B("value")
NullValueB == B("NULL_VALUE")
IsUp(c) == c >= 65 /\ c <= 90
IsLo(c) == c >= 97 /\ c <= 122

(* base64 *)
B64C(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
Six(b, i) == LET k == (6 * i) \div 8 IN     \* the i-th (0..) group of six bits, most significant first
    CASE (6 * i) % 8 = 0 -> ByteAt(b, k + 1) \div 4
      [] (6 * i) % 8 = 6 -> (ByteAt(b, k + 1) % 4) * 16 + ByteAt(b, k + 2) \div 16
      [] (6 * i) % 8 = 4 -> (ByteAt(b, k + 1) % 16) * 4 + ByteAt(b, k + 2) \div 64
      [] OTHER -> ByteAt(b, k + 1) % 64
Base64(b) == LET n == (8 * Len(b) + 5) \div 6
                 all == 4 * ((Len(b) + 2) \div 3)
             IN [i \in 1..all |-> IF i <= n THEN B64C(Six(b, i - 1)) ELSE 61]
B64V(c, url) == IF IsUp(c) THEN c - 65 ELSE IF IsLo(c) THEN c - 71 ELSE IF IsDigitC(c) THEN c + 4
                ELSE IF c = (IF url THEN 45 ELSE 43) THEN 62 ELSE IF c = (IF url THEN 95 ELSE 47) THEN 63 ELSE -1
RECURSIVE NPad(_)
NPad(s) == IF s # <<>> /\ Last(s) = 61 THEN 1 + NPad(Front(s)) ELSE 0
UnSix(v, j) == LET k == (8 * (j - 1)) \div 6  r == (8 * (j - 1)) % 6 IN
    CASE r = 0 -> v[k + 1] * 4 + v[k + 2] \div 16
      [] r = 2 -> (v[k + 1] % 16) * 16 + v[k + 2] \div 4
      [] OTHER -> (v[k + 1] % 4) * 64 + v[k + 2]
UnBase64(s) ==
    LET np == NPad(s)
        body == SubSeq(s, 1, Len(s) - np)
        n == Len(body)
        Dec(url) == [i \in 1..n |-> B64V(body[i], url)]
        std == Dec(FALSE)
        url == Dec(TRUE)
        v == IF \A i \in 1..n : std[i] >= 0 THEN std ELSE url
    IN IF n % 4 = 1 \/ np > (4 - (n % 4)) % 4 \/ \E i \in 1..n : v[i] < 0 THEN NoVal
       ELSE Yes([j \in 1..((6 * n) \div 8) |-> UnSix(v, j)])

(* ---- dates ---- *)
MulAdd(b, r, c) == MulAddFrom(b, r, c, 1).b
DaysBefore(y) == LET p == y - 1 IN p * 365 + p \div 4 - p \div 100 + p \div 400      \* days from 0001-01-01 to the start of year y >= 1
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MonthDays(y, m - 1)
EpochDay == 719162                                   \* 1970-01-01 as days from 0001-01-01
LastDay == 3652058                                   \* 9999-12-31
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, d) == IF d < MonthDays(y, m) THEN <<y, m, d + 1>> ELSE MonthOf(y, m + 1, d - MonthDays(y, m))
(* the date of a day number from 0001-01-01 *)
DateOf(n) == LET g == n \div 366 + 1      \* never after the right year
                 Ys == {y \in g..(g + 22) : DaysBefore(y) <= n}
                 y == CHOOSE y \in Ys : \A z \in Ys : z <= y
             IN MonthOf(y, 1, n - DaysBefore(y))
RECURSIVE Pad(_, _)
Pad(n, k) == IF k = 0 THEN <<>> ELSE Pad(n \div 10, k - 1) \o <<48 + (n % 10)>>
Frac(n) == IF n = 0 THEN <<>> ELSE <<46>> \o (IF n % 1000000 = 0 THEN Pad(n \div 1000000, 3) ELSE IF n % 1000 = 0 THEN Pad(n \div 1000, 6) ELSE Pad(n, 9))
(* seconds since 1970 of second sod of day n from 0001-01-01 *)
SecondsOf(n, sod) == MulAdd(IntBytes(n - EpochDay, 8), 86400, sod)
(* the bytes of seconds + the seconds between 0001 and 1970 *)
EpochSec == MulAdd(NatBytes(EpochDay, 8), 86400, 0)
RECURSIVE AddB(_, _, _, _)
AddB(a, b, i, c) == IF i > Len(a) THEN a ELSE LET s == a[i] + b[i] + c IN AddB([a EXCEPT ![i] = s % 256], b, i + 1, s \div 256)
TsSecOK(s) == SLeq(SecondsOf(0, 0), s) /\ SLeq(s, SecondsOf(LastDay, 86399))
TsText(s, nanos) ==
    LET q == DivSmall(AddB(s, EpochSec, 1, 0), 86400)
        d == DateOf(ToNat(q.q))
    IN Pad(d[1], 4) \o <<45>> \o Pad(d[2], 2) \o <<45>> \o Pad(d[3], 2) \o <<84>>
       \o Pad(q.r \div 3600, 2) \o <<58>> \o Pad((q.r \div 60) % 60, 2) \o <<58>> \o Pad(q.r % 60, 2) \o Frac(nanos) \o <<90>>
MaxDur == DigitsToBytes(DigitVals(B("315576000000")), 10, 8).b
AbsB(b) == IF IsNeg(b) THEN Negate(b) ELSE b
DurSecOK(s) == LET a == AbsB(s) IN ~IsNeg(a) /\ Leq(a, MaxDur)
NanosMax == 999999999
DurOK(s, n) == DurSecOK(s) /\ n >= -NanosMax /\ n <= NanosMax /\ ~(~IsZero(s) /\ n # 0 /\ IsNeg(s) # (n < 0))
DurText(s, n) == (IF IsNeg(s) \/ n < 0 THEN <<45>> ELSE <<>>) \o UDec(AbsB(s)) \o Frac(IF n < 0 THEN -n ELSE n) \o <<115>>

Num2(s, i) == 10 * (s[i] - 48) + s[i + 1] - 48
RECURSIVE Nanos9(_, _, _, _)
Nanos9(s, i, k, acc) == IF k = 0 THEN acc ELSE Nanos9(s, i + 1, k - 1, 10 * acc + (IF i \in DOMAIN s /\ IsDigitC(s[i]) THEN s[i] - 48 ELSE 0))
(* nanoseconds of the digits from i to e *)
FracNanos(s, i, e) == Nanos9(SubSeq(s, i, e), 1, 9, 0)
TsShape(s) == Len(s) >= 20 /\ \A i \in 1..19 : CASE i \in {5, 8} -> s[i] = 45 [] i = 11 -> s[i] = 84 [] i \in {14, 17} -> s[i] = 58 [] OTHER -> IsDigitC(s[i])
ParseTs(s) ==
    IF ~TsShape(s) THEN NoVal
    ELSE LET frac == s[20] = 46
             i == IF frac THEN SpanDigits(s, 21) ELSE 20
             z == i = Len(s) /\ s[i] = 90
             off == i + 5 = Len(s) /\ s[i] \in {43, 45} /\ s[i + 3] = 58 /\ \A k \in {i + 1, i + 2, i + 4, i + 5} : IsDigitC(s[k])
             y == 100 * Num2(s, 1) + Num2(s, 3)
             mo == Num2(s, 6)
             d == Num2(s, 9)
             h == Num2(s, 12)
             mi == Num2(s, 15)
             se == Num2(s, 18)
         IN IF (frac /\ i = 21) \/ ~(z \/ off) THEN NoVal
            ELSE IF y = 0 \/ mo = 0 \/ mo > 12 THEN NoVal
            ELSE IF d = 0 \/ d > MonthDays(y, mo) \/ h > 23 \/ mi > 59 \/ se > 59 THEN NoVal
            ELSE IF off /\ (Num2(s, i + 1) > 23 \/ Num2(s, i + 4) > 59) THEN NoVal
            ELSE LET o == IF off THEN (IF s[i] = 43 THEN -1 ELSE 1) * (3600 * Num2(s, i + 1) + 60 * Num2(s, i + 4)) ELSE 0
                     sod == 3600 * h + 60 * mi + se + o
                     day == DaysBefore(y) + MonthStart(y, mo) + d - 1 + (IF sod < 0 THEN -1 ELSE IF sod >= 86400 THEN 1 ELSE 0)
                 IN IF day < 0 \/ day > LastDay THEN NoVal
                    ELSE [ok |-> TRUE, s |-> SecondsOf(day, (sod + 86400) % 86400), n |-> IF frac THEN FracNanos(s, 21, i - 1) ELSE 0]
ParseDur(s) ==
    LET neg == s # <<>> /\ s[1] = 45
        u == IF neg THEN Tail(s) ELSE s
        i == SpanDigits(u, 1)
        frac == i \in DOMAIN u /\ u[i] = 46
        k == IF frac THEN SpanDigits(u, i + 1) ELSE i
    IN IF i = 1 \/ (frac /\ k = i + 1) \/ k # Len(u) THEN NoVal
       ELSE IF u[k] # 115 THEN NoVal
       ELSE LET d == DigitsToBytes(DigitVals(SubSeq(u, 1, i - 1)), 10, 8)
                n == IF frac THEN FracNanos(u, i + 1, k - 1) ELSE 0
            IN IF ~d.ok THEN NoVal ELSE IF IsNeg(d.b) THEN NoVal
               ELSE LET s8 == IF neg THEN Negate(d.b) ELSE d.b
                        n4 == IF neg THEN -n ELSE n
                    IN IF DurOK(s8, n4) THEN [ok |-> TRUE, s |-> s8, n |-> n4] ELSE NoVal

(* ---- field masks ---- *)
RECURSIVE Camel(_, _, _)
Camel(p, i, acc) ==       \* NoVal when the path does not survive the conversion
    IF i > Len(p) THEN Yes(acc)
    ELSE IF IsUp(p[i]) \/ p[i] = 44 THEN NoVal
    ELSE IF p[i] # 95 THEN Camel(p, i + 1, Append(acc, p[i]))
    ELSE IF i < Len(p) /\ IsLo(p[i + 1]) THEN Camel(p, i + 2, Append(acc, p[i + 1] - 32)) ELSE NoVal
RECURSIVE Snake(_, _, _)
Snake(p, i, acc) == IF i > Len(p) THEN Yes(acc)
    ELSE IF p[i] = 95 THEN NoVal
    ELSE IF IsUp(p[i]) THEN Snake(p, i + 1, acc \o <<95, p[i] + 32>>) ELSE Snake(p, i + 1, Append(acc, p[i]))
RECURSIVE SplitOn(_, _, _, _)
SplitOn(s, c, i, cur) == IF i > Len(s) THEN <<cur>> ELSE IF s[i] = c THEN <<cur>> \o SplitOn(s, c, i + 1, <<>>) ELSE SplitOn(s, c, i + 1, Append(cur, s[i]))
RECURSIVE JoinWith(_, _)
JoinWith(ss, c) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<c>> \o JoinWith(Tail(ss), c)

(* ---- well-known types ---- *)
P(n) == "google.protobuf." \o n
WrapKind == (P("FloatValue") :> "float") @@ (P("DoubleValue") :> "double") @@ (P("Int32Value") :> "int32") @@ (P("Int64Value") :> "int64")
            @@ (P("UInt32Value") :> "uint32") @@ (P("UInt64Value") :> "uint64") @@ (P("BoolValue") :> "bool") @@ (P("StringValue") :> "string") @@ (P("BytesValue") :> "bytes")
Wkt == DOMAIN WrapKind \cup {P(n) : n \in {"Any", "Timestamp", "Duration", "Struct", "FieldMask", "ListValue", "Value", "Empty"}}
(* the scalar in field n of a well-known message, its zero when unset *)
Fld(m, n, t) == LET i == At(m, n) IN IF i # 0 /\ m.m[i].k = "v" THEN m.m[i].v.s ELSE Zeros[Width(t)]
SubF(m, n) == LET i == At(m, n) IN IF i # 0 /\ m.m[i].k = "v" THEN <<m.m[i].v>> ELSE <<>>
LastSlash(b) == LET p == {i \in DOMAIN b : b[i] = 47} IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A k \in p : k <= i
(* the type named by a type URL: "" when it has no '/' or there is no such type *)
UrlType(C, b) == LET i == LastSlash(b)  n == StrOf(SubSeq(b, i + 1, Len(b))) IN IF i = 0 THEN "" ELSE IF n \in DOMAIN C.mt THEN n ELSE ""

(* ---- writing ---- *)
FloatNode(t, s) == IF IsNanBits(s) THEN StrN(NaNB) ELSE IF IsInfBits(s) THEN StrN(IF IsNeg(s) THEN NegInfB ELSE PosInfB) ELSE FltN(t, s)
EnumNames(C, tn, s) == LET vs == C.en[tn].vals IN {vs[i].name : i \in {k \in DOMAIN vs : IntBytes(vs[k].num, 4) = s}}
(* several names for one number: the one the library reports, which has to be one of them *)
EnumName(C, tn, s) == LET ns == EnumNames(C, tn, s) IN
    IF Cardinality(ns) <= 1 THEN ns ELSE {C.ew[i].nm : i \in {k \in DOMAIN C.ew : C.ew[k].e = tn /\ C.ew[k].n = s}} \cap ns
ScalarNode(C, o, kind, tn, s) ==
    LET t == Tag(kind) IN
    CASE t = "bool" -> BoolN(s = <<1>>)
      [] t = "i32" -> IntN(SDec(s))
      [] t = "u32" -> IntN(UDec(s))
      [] t = "i64" -> IF o.s64 THEN StrN(SDec(s)) ELSE IntN(SDec(s))
      [] t = "u64" -> IF o.s64 THEN StrN(UDec(s)) ELSE IntN(UDec(s))
      [] t \in {"f32", "f64"} -> FloatNode(t, s)
      [] t = "string" -> StrN(s)
      [] t = "bytes" -> StrN(Base64(s))
      [] OTHER -> IF tn = P("NullValue") THEN NullN
                  ELSE IF o.enumnum \/ EnumNames(C, tn, s) = {} THEN IntN(SDec(s))
                  ELSE StrN(B(CHOOSE n \in EnumName(C, tn, s) : TRUE))
KeyText(t, s) == CASE t = "bool" -> IF s = <<1>> THEN TrueB ELSE FalseB
                   [] t \in {"i32", "i64"} -> SDec(s)
                   [] t \in {"u32", "u64"} -> UDec(s)
                   [] OTHER -> s
RECURSIVE MsgNode(_, _, _), Members(_, _, _), FieldNode(_, _, _, _), ElemNode(_, _, _, _), ValueNode(_, _)
ElemNode(C, o, f, v) == IF f.kind = "message" THEN MsgNode(C, o, v) ELSE ScalarNode(C, o, f.kind, f.tn, v.s)
FieldNode(C, o, f, v) ==
    IF f.list THEN ArrN([i \in DOMAIN v.l |-> ElemNode(C, o, f, v.l[i])])
    ELSE IF f.map THEN LET kf == C.mt[f.tn].f[1]  vf == C.mt[f.tn].f[2]
                       IN ObjN([i \in DOMAIN v.p |-> <<KeyText(Tag(kf.kind), v.p[i][1].s), ElemNode(C, o, vf, v.p[i][2])>>])
    ELSE ElemNode(C, o, f, v)
DefaultNode(C, o, f) == IF f.kind \in {"float", "double"} /\ ~f.list /\ IsZeroFloat(f.dflt.s) THEN FltN("zero", <<>>) ELSE FieldNode(C, o, f, f.dflt)
Members(C, o, m) ==
    LET t == C.mt[m.n]
        set == SelectSeq(m.m, LAMBDA e : e.k = "v")
        unset == IF o.skipdef THEN <<>> ELSE SelectSeq(t.byn, LAMBDA f : ~f.pres /\ ~Has(m, f))
        Name(f) == IF o.protoname /\ ~f.ext THEN f.nb ELSE f.jb
    IN [i \in DOMAIN set |-> LET f == Lookup(C.mt, m.n, set[i].n) IN <<Name(f), FieldNode(C, o, f, set[i].v)>>]
       \o [i \in DOMAIN unset |-> <<Name(unset[i]), DefaultNode(C, o, unset[i])>>]
ValueNode(C, m) ==     \* google.protobuf.Value, Struct, ListValue
    CASE m.n = P("ListValue") -> LET l == SubF(m, 1) IN ArrN(IF l = <<>> THEN <<>> ELSE [i \in DOMAIN l[1].l |-> ValueNode(C, l[1].l[i])])
      [] m.n = P("Struct") -> LET p == SubF(m, 1) IN ObjN(IF p = <<>> THEN <<>> ELSE [i \in DOMAIN p[1].p |-> <<p[1].p[i][1].s, ValueNode(C, p[1].p[i][2])>>])
      [] SubF(m, 2) # <<>> -> LET s == SubF(m, 2)[1].s IN IF IsNanBits(s) \/ IsInfBits(s) THEN ErrN ELSE FltN("f64", s)
      [] SubF(m, 3) # <<>> -> StrN(SubF(m, 3)[1].s)
      [] SubF(m, 4) # <<>> -> BoolN(SubF(m, 4)[1].s = <<1>>)
      [] SubF(m, 5) # <<>> -> ValueNode(C, SubF(m, 5)[1])
      [] SubF(m, 6) # <<>> -> ValueNode(C, SubF(m, 6)[1])
      [] OTHER -> NullN
AnyNode(C, o, m) ==
    LET url == Fld(m, 1, "string")
        b == Fld(m, 2, "bytes")
        tn == UrlType(C, url)
    IN IF tn = "" THEN ErrN
       ELSE LET r == Decode(C.mt, tn, b)
            IN IF ~r.ok THEN ErrN
               ELSE LET pm == Norm(C.mt, r.v)
                    IN ObjN(<<<<TypeB, StrN(url)>>>> \o (IF tn \in Wkt THEN <<<<ValueB, MsgNode(C, o, pm)>>>> ELSE Members(C, o, pm)))
MaskNode(m) ==
    LET l == SubF(m, 1)
        ps == IF l = <<>> THEN <<>> ELSE l[1].l
        cs == [i \in DOMAIN ps |-> IF ps[i].s = <<>> THEN NoVal ELSE Camel(ps[i].s, 1, <<>>)]
    IN IF \E i \in DOMAIN cs : ~cs[i].ok THEN ErrN ELSE StrN(JoinWith([i \in DOMAIN cs |-> cs[i].v], 44))
MsgNode(C, o, m) ==
    CASE m.n \notin Wkt -> ObjN(Members(C, o, m))
      [] m.n \in DOMAIN WrapKind -> ScalarNode(C, o, WrapKind[m.n], "", Fld(m, 1, Tag(WrapKind[m.n])))
      [] m.n \in {P("Value"), P("Struct"), P("ListValue")} -> ValueNode(C, m)
      [] m.n = P("Empty") -> ObjN(<<>>)
      [] m.n = P("Any") -> AnyNode(C, o, m)
      [] m.n = P("FieldMask") -> MaskNode(m)
      [] m.n = P("Timestamp") -> LET s == Fld(m, 1, "i64")  n == Fld(m, 2, "i32")
                                 IN IF TsSecOK(s) /\ ~IsNeg(n) /\ ToNat(n) <= NanosMax THEN StrN(TsText(s, ToNat(n))) ELSE ErrN
      [] OTHER -> LET s == Fld(m, 1, "i64")  n == ToInt(Fld(m, 2, "i32")) IN IF DurOK(s, n) THEN StrN(DurText(s, n)) ELSE ErrN

(* ---- reading: [ok |-> TRUE, v |-> <<value>> or <<>>] ---- *)
Skipped == Yes(<<>>)
Got(v) == Yes(<<v>>)
IntFrom(t, y) ==
    LET P1(b) == IF t \in {"i32", "i64"} THEN ParseSigned(b, Width(t)) ELSE ParseUnsigned(b, Width(t))
        r == IF y.j = "str" THEN P1(y.s)
             ELSE IF y.j = "num" THEN (IF y.iv = <<>> THEN NoVal ELSE P1(y.iv[1]))
             ELSE NoVal
    IN IF r.ok THEN Got(S(t, r.v)) ELSE NoVal
FloatFrom(t, y) ==
    LET w == Width(t)
        Wit(fw) == IF fw = <<>> THEN NoVal ELSE LET x == fw[IF w = 8 THEN 1 ELSE 2] IN IF x = <<>> THEN NoVal ELSE Got(S(t, x))
    IN IF y.j = "num" THEN Wit(<<y.d, y.f>>)
       ELSE IF y.j # "str" THEN NoVal
       ELSE IF y.s = PosInfB THEN Got(S(t, InfBits(w, FALSE)))
       ELSE IF y.s = NegInfB THEN Got(S(t, InfBits(w, TRUE)))
       ELSE IF y.s = NaNB THEN Got(S(t, NanBits(w)))
       ELSE IF FloatGrammar(IF HasMinus(y.s) THEN Tail(y.s) ELSE y.s) THEN Wit(y.fw)
       ELSE NoVal
EnumFrom(C, tn, y, deny) ==
    IF tn = P("NullValue") THEN
        IF y.j = "null" \/ (y.j = "str" /\ y.s = NullValueB) THEN Got(S("enum", Zeros[4]))
        ELSE IF y.j = "str" /\ ~deny THEN Skipped ELSE NoVal
    ELSE IF y.j = "str" THEN
        LET vs == C.en[tn].vals
            p == PositionOf(vs, LAMBDA v : B(v.name) = y.s)
        IN IF p # 0 THEN Got(S("enum", IntBytes(vs[p].num, 4))) ELSE IF deny THEN NoVal ELSE Skipped
    ELSE IF y.j = "num" /\ y.pl /\ y.iv # <<>> THEN LET r == ParseSigned(y.iv[1], 4) IN IF r.ok THEN Got(S("enum", r.v)) ELSE NoVal
    ELSE NoVal
ScalarFrom(C, kind, tn, y, deny) ==
    LET t == Tag(kind) IN
    CASE t = "bool" -> IF y.j = "bool" THEN Got(S(t, <<IF y.b THEN 1 ELSE 0>>)) ELSE NoVal
      [] t \in {"i32", "i64", "u32", "u64"} -> IntFrom(t, y)
      [] t \in {"f32", "f64"} -> FloatFrom(t, y)
      [] t = "string" -> IF y.j = "str" THEN Got(S(t, y.s)) ELSE NoVal
      [] t = "bytes" -> IF y.j # "str" THEN NoVal ELSE LET r == UnBase64(y.s) IN IF r.ok THEN Got(S(t, r.v)) ELSE NoVal
      [] OTHER -> EnumFrom(C, tn, y, deny)
KeyFrom(t, s) ==
    LET r == CASE t \in {"i32", "i64"} -> ParseSigned(s, Width(t))
               [] t \in {"u32", "u64"} -> ParseUnsigned(s, Width(t))
               [] t = "bool" -> IF s = TrueB THEN Yes(<<1>>) ELSE IF s = FalseB THEN Yes(<<0>>) ELSE NoVal
               [] OTHER -> Yes(s)
    IN IF r.ok THEN Yes(S(t, r.v)) ELSE NoVal
Msg1(n, t, s) == IF IsZero(s) THEN <<>> ELSE <<VE(n, S(t, s))>>
RECURSIVE MsgFrom(_, _, _, _), FoldObj(_, _, _, _, _), FieldFrom(_, _, _, _), ElemFrom(_, _, _, _), FoldList(_, _, _, _, _, _), FoldMap(_, _, _, _, _, _), ValueFrom(_), FoldVals(_, _, _), FoldFields(_, _, _)
NullVal == MsgV(P("Value"), <<VE(1, S("enum", Zeros[4]))>>)
FoldVals(a, i, acc) == IF i > Len(a) THEN acc ELSE FoldVals(a, i + 1, Append(acc, ValueFrom(a[i])))
FoldFields(o, i, acc) == IF i > Len(o) THEN acc ELSE FoldFields(o, i + 1, MapPut(acc, S("string", o[i][1]), ValueFrom(o[i][2])))
ListOf(a) == MsgV(P("ListValue"), IF a = <<>> THEN <<>> ELSE <<VE(1, ListV(FoldVals(a, 1, <<>>)))>>)
StructOf(o) == MsgV(P("Struct"), IF o = <<>> THEN <<>> ELSE <<VE(1, MapV(FoldFields(o, 1, <<>>)))>>)
ValueFrom(y) ==
    CASE y.j = "null" -> NullVal
      [] y.j = "bool" -> MsgV(P("Value"), <<VE(4, S("bool", <<IF y.b THEN 1 ELSE 0>>))>>)
      [] y.j = "num" -> MsgV(P("Value"), <<VE(2, S("f64", y.d))>>)
      [] y.j = "str" -> MsgV(P("Value"), <<VE(3, S("string", y.s))>>)
      [] y.j = "arr" -> MsgV(P("Value"), <<VE(6, ListOf(y.a))>>)
      [] OTHER -> MsgV(P("Value"), <<VE(5, StructOf(y.o))>>)
ElemFrom(C, f, y, deny) == IF f.kind = "message" THEN MsgFrom(C, f.tn, y, deny) ELSE ScalarFrom(C, f.kind, f.tn, y, deny)
FoldList(C, f, a, i, acc, deny) ==
    IF i > Len(a) THEN Got(ListV(acc))
    ELSE LET r == ElemFrom(C, f, a[i], deny) IN IF r.ok THEN FoldList(C, f, a, i + 1, acc \o r.v, deny) ELSE NoVal
FoldMap(C, e, o, i, acc, deny) ==
    IF i > Len(o) THEN Got(MapV(acc))
    ELSE LET k == KeyFrom(Tag(e.f[1].kind), o[i][1])
         IN IF ~k.ok THEN NoVal
            ELSE LET r == ElemFrom(C, e.f[2], o[i][2], deny)
                 IN IF ~r.ok THEN NoVal ELSE FoldMap(C, e, o, i + 1, IF r.v = <<>> THEN acc ELSE MapPut(acc, k.v, r.v[1]), deny)
FieldFrom(C, f, y, deny) ==
    IF y.j = "null" THEN
        IF f.list \/ f.map THEN Skipped
        ELSE IF f.tn = P("Value") THEN Got(NullVal)
        ELSE IF f.tn = P("NullValue") THEN Got(S("enum", Zeros[4]))
        ELSE Skipped
    ELSE IF f.list THEN (IF y.j = "arr" THEN FoldList(C, f, y.a, 1, <<>>, deny) ELSE NoVal)
    ELSE IF f.map THEN (IF y.j = "obj" THEN FoldMap(C, C.mt[f.tn], y.o, 1, <<>>, deny) ELSE NoVal)
    ELSE ElemFrom(C, f, y, deny)
(* the field or extension a member name denotes *)
Named(C, mt, k) ==
    LET t == C.mt[mt]
        fs == SeqToSet(t.idx)
        xs == {t.x[n] : n \in DOMAIN t.x}
    IN IF \E f \in fs : f.jb = k THEN <<CHOOSE f \in fs : f.jb = k>>
       ELSE IF \E f \in fs : f.nb = k THEN <<CHOOSE f \in fs : f.nb = k>>
       ELSE IF \E x \in xs : x.jb = k THEN <<CHOOSE x \in xs : x.jb = k>>
       ELSE <<>>
FoldObj(C, m, o, i, deny) ==
    IF i > Len(o) THEN Yes(m)
    ELSE LET n == Named(C, m.n, o[i][1])
         IN IF n = <<>> THEN (IF deny THEN NoVal ELSE FoldObj(C, m, o, i + 1, deny))
            ELSE LET f == n[1]
                     r == FieldFrom(C, f, o[i][2], deny)
                 IN IF ~r.ok THEN NoVal
                    ELSE IF r.v = <<>> THEN FoldObj(C, m, o, i + 1, deny)
                    ELSE IF f.oneof # 0 /\ \E k \in C.mt[m.n].sibs[f.oneof] : Has(m, C.mt[m.n].f[k]) THEN NoVal
                    ELSE FoldObj(C, SetF(C.mt, m, f, r.v[1]), o, i + 1, deny)
AnyFrom(C, y, deny) ==
    LET ti == {i \in DOMAIN y.o : y.o[i][1] = TypeB}
        t == y.o[CHOOSE i \in ti : TRUE][2]
        rest == SelectSeq(y.o, LAMBDA e : e[1] # TypeB)
    IN IF ti = {} THEN NoVal
       ELSE IF t.j # "str" THEN NoVal
       ELSE LET tn == UrlType(C, t.s)
                Pack(p) == Got(MsgV(P("Any"), Msg1(1, "string", t.s) \o LET b == Encode(C.mt, Norm(C.mt, p)) IN IF b = <<>> THEN <<>> ELSE <<VE(2, S("bytes", b))>>))
                vi == {i \in DOMAIN rest : rest[i][1] = ValueB}
            IN IF tn = "" THEN NoVal
               ELSE IF tn \in Wkt THEN
                    IF vi = {} \/ (deny /\ Len(rest) > 1) THEN NoVal
                    ELSE LET r == MsgFrom(C, tn, rest[CHOOSE i \in vi : TRUE][2], deny) IN IF r.ok THEN Pack(r.v[1]) ELSE NoVal
               ELSE LET r == FoldObj(C, MsgV(tn, <<>>), rest, 1, deny) IN IF r.ok THEN Pack(r.v) ELSE NoVal
MaskFrom(s) ==
    LET ps == SelectSeq(SplitOn(s, 44, 1, <<>>), LAMBDA p : p # <<>>)
        cs == [i \in DOMAIN ps |-> Snake(ps[i], 1, <<>>)]
    IN IF \E i \in DOMAIN cs : ~cs[i].ok THEN NoVal
       ELSE Got(MsgV(P("FieldMask"), IF cs = <<>> THEN <<>> ELSE <<VE(1, ListV([i \in DOMAIN cs |-> S("string", cs[i].v)]))>>))
Sec2(n, r) == IF r.ok THEN Got(MsgV(n, Msg1(1, "i64", r.s) \o Msg1(2, "i32", IntBytes(r.n, 4)))) ELSE NoVal
MsgFrom(C, mt, y, deny) ==
    CASE mt \notin Wkt -> IF y.j # "obj" THEN NoVal ELSE LET r == FoldObj(C, MsgV(mt, <<>>), y.o, 1, deny) IN IF r.ok THEN Got(r.v) ELSE NoVal
      [] mt \in DOMAIN WrapKind -> LET r == ScalarFrom(C, WrapKind[mt], "", y, deny) IN IF r.ok THEN Got(Norm(C.mt, MsgV(mt, <<VE(1, r.v[1])>>))) ELSE NoVal
      [] mt = P("Value") -> Got(ValueFrom(y))
      [] mt = P("Struct") -> IF y.j = "obj" THEN Got(StructOf(y.o)) ELSE NoVal
      [] mt = P("ListValue") -> IF y.j = "arr" THEN Got(ListOf(y.a)) ELSE NoVal
      [] mt = P("Empty") -> IF y.j = "obj" /\ y.o = <<>> THEN Got(MsgV(mt, <<>>)) ELSE NoVal
      [] mt = P("Any") -> IF y.j = "obj" THEN AnyFrom(C, y, deny) ELSE NoVal
      [] y.j # "str" -> NoVal
      [] mt = P("FieldMask") -> MaskFrom(y.s)
      [] mt = P("Timestamp") -> Sec2(mt, ParseTs(y.s))
      [] OTHER -> Sec2(mt, ParseDur(y.s))

(* ---- what JSON carries: unknown fields and the number of a NullValue are lost, ---- *)
(* ---- a Value without kind becomes null; and messages up to the encoding of Any ---- *)
RECURSIVE Carried(_, _, _), CarriedV(_, _, _, _)
CarriedV(C, f, v, strip) ==
    CASE v.t = "msg" -> Carried(C, v, strip)
      [] v.t = "list" -> ListV([i \in DOMAIN v.l |-> CarriedV(C, f, v.l[i], strip)])
      [] v.t = "map" -> MapV([i \in DOMAIN v.p |-> <<v.p[i][1], CarriedV(C, C.mt[f.tn].f[2], v.p[i][2], strip)>>])
      [] v.t = "enum" -> IF strip /\ f.tn = P("NullValue") THEN S("enum", Zeros[4]) ELSE v
      [] v.t \in {"f32", "f64"} -> IF IsNanBits(v.s) THEN S(v.t, NanBits(Len(v.s))) ELSE v
      [] OTHER -> v
Carried(C, m, strip) ==
    LET es == IF strip THEN SelectSeq(m.m, LAMBDA e : e.k = "v") ELSE m.m
        x == MsgV(m.n, [i \in DOMAIN es |-> IF es[i].k = "u" THEN es[i] ELSE VE(es[i].n, CarriedV(C, Lookup(C.mt, m.n, es[i].n), es[i].v, strip))])
        tn == UrlType(C, Fld(x, 1, "string"))
        r == Decode(C.mt, tn, Fld(x, 2, "bytes"))
    IN IF strip /\ m.n = P("Value") /\ es = <<>> THEN NullVal
       ELSE IF m.n # P("Any") THEN Norm(C.mt, x)
       ELSE IF tn = "" THEN x
       ELSE IF ~r.ok THEN x
       ELSE LET b == Encode(C.mt, Carried(C, Norm(C.mt, r.v), strip))
            IN MsgV(m.n, SelectSeq(x.m, LAMBDA e : e.n < 2) \o (IF b = <<>> THEN <<>> ELSE <<VE(2, S("bytes", b))>>) \o SelectSeq(x.m, LAMBDA e : e.n > 2))
=============================================================================
