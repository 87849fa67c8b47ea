------------------------------- MODULE TextFmt -------------------------------
(* The protobuf text format: what is written for a message and options, and   *)
(* what a text denotes.  Texts are byte sequences.  fw is a table of          *)
(* [tx, d, f]: the nearest double and float of a decimal number.              *)
EXTENDS JsonMap

(* ---- output: a sequence of chunks; the spelling of floats is free and the order of map entries too ---- *)
CB(b) == <<[c |-> "b", b |-> b]>>
CF(t, s) == <<[c |-> "f", t |-> t, s |-> s]>>
CPerm(items, sep) == <<[c |-> "p", items |-> items, sep |-> sep]>>
EscB(c) == CASE c = 9 -> <<92, 116>> [] c = 13 -> <<92, 114>> [] c = 10 -> <<92, 110>>
             [] c \in {92, 39, 34} -> <<92, c>>
             [] c >= 32 /\ c <= 126 -> <<c>>
             [] OTHER -> <<92, 48 + c \div 64, 48 + ((c \div 8) % 8), 48 + (c % 8)>>
StrLit(b) == <<34>> \o Concat([i \in DOMAIN b |-> EscB(b[i])]) \o <<34>>
Blanks(n) == [i \in 1..n |-> 32]
Sep(o, ind) == IF o.pretty THEN <<10>> \o Blanks(ind) ELSE <<44>>
Brk(o, ind) == IF o.pretty THEN <<10>> \o Blanks(ind) ELSE <<>>
Sp(o) == IF o.pretty THEN <<32>> ELSE <<>>
RECURSIVE JoinC(_, _)
JoinC(cs, sep) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o sep \o JoinC(Tail(cs), sep)
Braced(o, ind, body) == CB(<<123>> \o Brk(o, ind + 2)) \o body \o CB(Brk(o, ind) \o <<125>>)

IsIdS(c) == IsUp(c) \/ IsLo(c) \/ c = 95
IsIdC(c) == IsIdS(c) \/ IsDigitC(c)
IsIdentB(b) == b # <<>> /\ IsIdS(b[1]) /\ \A i \in DOMAIN b : IsIdC(b[i])
DottedIdent(b) == LET ss == SplitOn(b, 46, 1, <<>>) IN \A i \in DOMAIN ss : IsIdentB(ss[i])
(* the message inside an Any that is shown in expanded form: <<>> or <<m>> *)
Expanded(C, o, m) ==
    IF ~o.any \/ m.n # P("Any") THEN <<>>
    ELSE LET url == Fld(m, 1, "string")
             k == LastSlash(url)
             tn == UrlType(C, url)
         IN IF tn = "" THEN <<>>
            ELSE IF ~DottedIdent(SubSeq(url, 1, k - 1)) \/ ~DottedIdent(SubSeq(url, k + 1, Len(url))) THEN <<>>
            ELSE LET r == Decode(C.mt, tn, Fld(m, 2, "bytes")) IN IF r.ok THEN <<Norm(C.mt, r.v)>> ELSE <<>>

(* unknown fields *)
RECURSIVE ReadSet(_, _, _)
ReadSet(b, i, acc) == IF i > Len(b) THEN Yes(acc)
    ELSE LET k == ReadKey(b, i, Len(b)) IN
         IF ~k.ok THEN NoVal
         ELSE LET r == ReadUnknown(k.n, k.w, b, k.i, Len(b), RecursionLimit) IN IF r.ok THEN ReadSet(b, r.i, Append(acc, r.v)) ELSE NoVal
RECURSIVE UnkT(_, _, _), UnkSetT(_, _, _)
UnkSetT(o, us, ind) == IF us = <<>> THEN CB(<<123, 125>>)
                       ELSE Braced(o, ind, JoinC([i \in DOMAIN us |-> UnkT(o, us[i], ind + 2)], CB(Sep(o, ind + 2))))
UnkT(o, u, ind) ==
    LET Lit(b) == CB(NatDec(u.n) \o <<58>> \o Sp(o) \o b)
        Sub(us) == CB(NatDec(u.n) \o Sp(o)) \o UnkSetT(o, us, ind)
    IN CASE u.w = 0 -> Lit(UDec(u.p))
         [] u.w \in {1, 5} -> Lit(<<48, 120>> \o HexOf(u.p))
         [] u.w = 3 -> Sub(u.g)
         [] OTHER -> LET r == IF u.p = <<>> THEN NoVal ELSE ReadSet(u.p, 1, <<>>) IN IF r.ok THEN Sub(r.v) ELSE Lit(StrLit(u.p))

(* what a message shows, in order: declared fields, then extensions and unknown fields by number *)
ShownFields(C, o, m) ==
    LET t == C.mt[m.n]
        fs == SelectSeq(IF o.index THEN t.idx ELSE t.byn, LAMBDA f : Has(m, f) \/ (~o.skipdef /\ ~f.pres))
        es == SelectSeq(m.m, LAMBDA e : IF e.k = "u" THEN ~o.skipunk ELSE e.n \in DOMAIN t.x)
    IN [i \in DOMAIN fs |-> [k |-> "v", n |-> fs[i].num]]
       \o Concat([i \in DOMAIN es |-> IF es[i].k = "v" THEN <<[k |-> "v", n |-> es[i].n]>> ELSE [j \in DOMAIN es[i].u |-> [k |-> "u", n |-> es[i].n, j |-> j]]])
TextName(f) == IF f.ext THEN B(f.json) ELSE IF f.group THEN B(LastSeg(f.tn)) ELSE f.nb
RECURSIVE ValT(_, _, _, _, _), MsgT(_, _, _, _), BodyT(_, _, _, _), FieldT(_, _, _, _, _, _)
FieldT(C, o, name, tn, v, ind) == CB(name \o (IF v.t = "msg" THEN <<>> ELSE <<58>>) \o Sp(o)) \o ValT(C, o, tn, v, ind)
(* tn: the type the value's field has, "" when scalar or not known *)
ValT(C, o, tn, v, ind) ==
    CASE v.t = "bool" -> CB(IF v.s = <<1>> THEN TrueB ELSE FalseB)
      [] v.t \in {"i32", "i64"} -> CB(SDec(v.s))
      [] v.t \in {"u32", "u64"} -> CB(UDec(v.s))
      [] v.t \in {"f32", "f64"} -> CF(v.t, v.s)
      [] v.t \in {"string", "bytes"} -> CB(StrLit(v.s))
      [] v.t = "enum" -> CB(IF tn = "" THEN SDec(v.s) ELSE IF EnumNames(C, tn, v.s) = {} THEN SDec(v.s) ELSE B(CHOOSE n \in EnumName(C, tn, v.s) : TRUE))
      [] v.t = "msg" -> MsgT(C, o, v, ind)
      [] v.t = "list" -> CB(<<91>>) \o JoinC([i \in DOMAIN v.l |-> ValT(C, o, tn, v.l[i], ind)], CB(<<44>> \o Sp(o))) \o CB(<<93>>)
      [] OTHER -> LET vtn == IF tn = "" THEN "" ELSE C.mt[tn].f[2].tn
                      Entry(kv) == Braced(o, ind, CB(<<107, 101, 121, 58>> \o Sp(o)) \o ValT(C, o, "", kv[1], ind + 2) \o CB(Sep(o, ind + 2))
                                                  \o FieldT(C, o, <<118, 97, 108, 117, 101>>, vtn, kv[2], ind + 2))
                  IN CB(<<91>>) \o CPerm([i \in DOMAIN v.p |-> Entry(v.p[i])], <<44>> \o Sp(o)) \o CB(<<93>>)
MsgT(C, o, m, ind) == IF ShownFields(C, o, m) = <<>> THEN CB(<<123, 125>>) ELSE Braced(o, ind, BodyT(C, o, m, ind + 2))
BodyT(C, o, m, ind) ==
    LET x == Expanded(C, o, m)
        One(s) == IF s.k = "u" THEN UnkT(o, m.m[At(m, s.n)].u[s.j], ind)
                  ELSE LET f == Lookup(C.mt, m.n, s.n)
                       IN IF Has(m, f) \/ f.dflt.t \notin {"f32", "f64"} THEN FieldT(C, o, TextName(f), f.tn, Current(m, f), ind)
                          ELSE CB(TextName(f) \o <<58>> \o Sp(o)) \o CF("zero", <<>>)
        ss == ShownFields(C, o, m)
    IN IF x # <<>> THEN CB(<<91>> \o Fld(m, 1, "string") \o <<93>> \o Sp(o)) \o MsgT(C, o, x[1], ind)
       ELSE JoinC([i \in DOMAIN ss |-> One(ss[i])], CB(Sep(o, ind)))

(* does the text from position p on have the form of the chunks? the position after them, 0 if not *)
NumC(c) == IsDigitC(c) \/ IsUp(c) \/ IsLo(c) \/ c \in {43, 45, 46}
RECURSIVE SpanNum(_, _)
SpanNum(b, i) == IF i \in DOMAIN b /\ NumC(b[i]) THEN SpanNum(b, i + 1) ELSE i
Wit(fw, t) == LET k == {i \in DOMAIN fw : fw[i].tx = t} IN IF k = {} THEN <<>> ELSE <<fw[CHOOSE i \in k : TRUE]>>
IsFloatText(fw, t, x) ==
    LET w == Wit(fw, x) IN
    IF t.t # "zero" /\ IsNanBits(IF t.t = "zero" THEN Zeros[8] ELSE t.s) THEN LowB(IF HasMinus(x) THEN Tail(x) ELSE x) = NanB
    ELSE w # <<>> /\ (CASE t.t = "f64" -> w[1].d = t.s [] t.t = "f32" -> w[1].f = t.s [] OTHER -> IsZeroFloat(w[1].d))
RECURSIVE MatchC(_, _, _, _, _), MatchPerm(_, _, _, _, _, _)
MatchPerm(left, cs, tx, p, sep, fw) ==
    IF left = {} THEN p
    ELSE LET hits == {i \in left : MatchC(cs[i], 1, tx, p, fw) # 0} IN
         IF hits = {} THEN 0
         ELSE LET i == CHOOSE i \in hits : TRUE
                  q == MatchC(cs[i], 1, tx, p, fw)
              IN IF left = {i} THEN q
                 ELSE IF SubSeq(tx, q, q + Len(sep) - 1) = sep THEN MatchPerm(left \ {i}, cs, tx, q + Len(sep), sep, fw) ELSE 0
MatchC(cs, k, tx, p, fw) ==
    IF k > Len(cs) THEN p
    ELSE LET x == cs[k]
             q == CASE x.c = "b" -> LET e == p + Len(x.b) - 1 IN IF e <= Len(tx) /\ SubSeq(tx, p, e) = x.b THEN e + 1 ELSE 0
                    [] x.c = "f" -> LET e == SpanNum(tx, p) IN IF e > p /\ IsFloatText(fw, x, SubSeq(tx, p, e - 1)) THEN e ELSE 0
                    [] OTHER -> MatchPerm(DOMAIN x.items, x.items, tx, p, x.sep, fw)
         IN IF q = 0 THEN 0 ELSE MatchC(cs, k + 1, tx, q, fw)
TextMatch(chunks, tx, fw) == MatchC(chunks, 1, tx, 1, fw) = Len(tx) + 1

(* ---- reading: tokens ---- *)
Tk(k, s, r) == [k |-> k, s |-> s, r |-> r]
PunctC == {46, 45, 123, 125, 91, 93, 60, 62, 44, 58, 59, 47}
BlankC == {9, 10, 11, 12, 13, 32}
RECURSIVE SpanId(_, _), SpanOct(_, _), SpanHex(_, _), SpanLine(_, _), SpanPlain(_, _, _)
SpanId(b, i) == IF i \in DOMAIN b /\ IsIdC(b[i]) THEN SpanId(b, i + 1) ELSE i
SpanOct(b, i) == IF i \in DOMAIN b /\ IsOct(b[i]) THEN SpanOct(b, i + 1) ELSE i
SpanHex(b, i) == IF i \in DOMAIN b /\ HexVal(b[i]) >= 0 THEN SpanHex(b, i + 1) ELSE i
SpanLine(b, i) == IF i \in DOMAIN b /\ b[i] # 10 THEN SpanLine(b, i + 1) ELSE i
SpanPlain(b, i, q) == IF i \in DOMAIN b /\ b[i] \notin {0, 10, 92, q} THEN SpanPlain(b, i + 1, q) ELSE i
In(b, i, cs) == i \in DOMAIN b /\ b[i] \in cs
ExpEnd(b, i) == IF ~In(b, i, {69, 101}) THEN i
                ELSE LET k == IF In(b, i + 1, {43, 45}) THEN i + 2 ELSE i + 1  e == SpanDigits(b, k) IN IF e > k THEN e ELSE i
(* the end of the float literal without its suffix: 0 when there is none at i *)
FloatEnd(b, i) ==
    LET d == SpanDigits(b, i) IN
    IF In(b, d, {46}) THEN LET d2 == SpanDigits(b, d + 1) IN IF d = i /\ d2 = d + 1 THEN 0 ELSE ExpEnd(b, d2)
    ELSE IF d = i THEN 0
    ELSE IF ExpEnd(b, d) > d THEN ExpEnd(b, d)
    ELSE IF In(b, d, {70, 102}) /\ (b[i] # 48 \/ d = i + 1) THEN d
    ELSE 0
HexNum(b, i, e) == LET f[k \in (i - 1)..(e - 1)] == IF k = i - 1 THEN 0 ELSE 16 * f[k - 1] + HexVal(b[k]) IN f[e - 1]
Scalar(c) == c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
BadLex == [ok |-> FALSE]
RECURSIVE LexStr(_, _, _, _)
LexStr(b, i, q, acc) ==
    IF i > Len(b) THEN BadLex
    ELSE IF b[i] = q THEN [ok |-> TRUE, v |-> acc, i |-> i + 1]
    ELSE IF b[i] \in {0, 10} THEN BadLex
    ELSE IF b[i] # 92 THEN LET e == SpanPlain(b, i, q) IN LexStr(b, e, q, acc \o SubSeq(b, i, e - 1))
    ELSE IF i = Len(b) THEN BadLex
    ELSE LET c == b[i + 1] IN
         IF c \in DOMAIN SimpleEsc THEN LexStr(b, i + 2, q, Append(acc, SimpleEsc[c]))
         ELSE IF IsOct(c) THEN
              LET e0 == SpanOct(b, i + 1)
                  e == IF e0 > i + 4 THEN i + 4 ELSE e0
                  v == IF e = i + 4 THEN 64 * (c - 48) + 8 * (b[i + 2] - 48) + b[i + 3] - 48 ELSE IF e = i + 3 THEN 8 * (c - 48) + b[i + 2] - 48 ELSE c - 48
              IN IF v > 255 THEN BadLex ELSE LexStr(b, e, q, Append(acc, v))
         ELSE IF c \in {88, 120} THEN
              LET e0 == SpanHex(b, i + 2)
                  e == IF e0 > i + 4 THEN i + 4 ELSE e0
              IN IF e = i + 2 THEN BadLex ELSE LexStr(b, e, q, Append(acc, HexNum(b, i + 2, e)))
         ELSE IF c = 117 THEN
              IF SpanHex(b, i + 2) < i + 6 THEN BadLex
              ELSE LET v == HexNum(b, i + 2, i + 6) IN IF Scalar(v) THEN LexStr(b, i + 6, q, acc \o Utf8Enc(v)) ELSE BadLex
         ELSE IF c = 85 THEN
              IF SpanHex(b, i + 2) < i + 10 \/ b[i + 2] # 48 \/ b[i + 3] # 48 THEN BadLex
              ELSE LET v == HexNum(b, i + 4, i + 10) IN IF Scalar(v) THEN LexStr(b, i + 10, q, acc \o Utf8Enc(v)) ELSE BadLex
         ELSE BadLex
RECURSIVE Lex(_, _, _)
Lex(b, i, acc) ==
    IF i > Len(b) THEN Yes(acc)
    ELSE LET c == b[i]
             fe == IF IsDigitC(c) \/ c = 46 THEN FloatEnd(b, i) ELSE 0
             (* a number may not run into a name *)
             Num(tok, e) == IF e \in DOMAIN b /\ IsIdS(b[e]) THEN NoVal ELSE Lex(b, e, Append(acc, tok))
         IN IF c \in BlankC THEN Lex(b, i + 1, acc)
            ELSE IF c = 35 THEN Lex(b, SpanLine(b, i), acc)
            ELSE IF IsIdS(c) THEN LET e == SpanId(b, i) IN Lex(b, e, Append(acc, Tk("id", SubSeq(b, i, e - 1), 0)))
            ELSE IF fe # 0 THEN Num(Tk("flt", SubSeq(b, i, fe - 1), 0), IF In(b, fe, {70, 102}) THEN fe + 1 ELSE fe)
            ELSE IF IsDigitC(c) THEN
                 IF c = 48 /\ In(b, i + 1, {88, 120}) /\ SpanHex(b, i + 2) > i + 2 THEN
                      LET e == SpanHex(b, i + 2) IN Num(Tk("int", SubSeq(b, i + 2, e - 1), 16), e)
                 ELSE IF c = 48 THEN
                      LET e == SpanOct(b, i + 1) IN IF SpanDigits(b, i) > e THEN NoVal ELSE IF e = i + 1 THEN Num(Tk("int", <<48>>, 10), e) ELSE Num(Tk("int", SubSeq(b, i + 1, e - 1), 8), e)
                 ELSE LET e == SpanDigits(b, i) IN Num(Tk("int", SubSeq(b, i, e - 1), 10), e)
            ELSE IF c \in {34, 39} THEN LET r == LexStr(b, i + 1, c, <<>>) IN IF r.ok THEN Lex(b, r.i, Append(acc, Tk("str", r.v, 0))) ELSE NoVal
            ELSE IF c \in PunctC THEN Lex(b, i + 1, Append(acc, Tk("p", <<>>, c)))
            ELSE NoVal

(* ---- reading: grammar; results are [ok, v, i] ---- *)
BadP == [ok |-> FALSE]
At2(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
IsTok(ts, i, k) == i \in DOMAIN ts /\ ts[i].k = k
IsP(ts, i, c) == i \in DOMAIN ts /\ ts[i].k = "p" /\ ts[i].r = c
DigitsOf(s) == [i \in DOMAIN s |-> HexVal(s[i])]
IntTok(t, k) == DigitsToBytes(DigitsOf(t.s), t.r, k)
PInt(t, ts, i) ==
    LET neg == IsP(ts, i, 45)
        j == IF neg THEN i + 1 ELSE i
        k == Width(t)
    IN IF ~IsTok(ts, j, "int") THEN BadP
       ELSE LET d == IntTok(ts[j], k) IN
            IF ~d.ok THEN BadP
            ELSE IF t \in {"u32", "u64"} THEN (IF neg THEN BadP ELSE At2(S(t, d.b), j + 1))
            ELSE IF neg THEN (IF Leq(d.b, MinSigned(k)) THEN At2(S(t, Negate(d.b)), j + 1) ELSE BadP)
            ELSE IF IsNeg(d.b) THEN BadP ELSE At2(S(t, d.b), j + 1)
FlipSign(s) == [s EXCEPT ![Len(s)] = (@ + 128) % 256]
PFloat(t, ts, i, fw) ==
    LET neg == IsP(ts, i, 45)
        j == IF neg THEN i + 1 ELSE i
        w == Width(t)
        Lit(s) == IF Wit(fw, s) = <<>> THEN BadP ELSE LET x == Wit(fw, s)[1] IN At2(IF w = 8 THEN x.d ELSE x.f, j + 1)
        r == IF IsTok(ts, j, "flt") THEN Lit(ts[j].s)
             ELSE IF IsTok(ts, j, "int") THEN (IF ts[j].r = 10 THEN Lit(ts[j].s) ELSE BadP)
             ELSE IF ~IsTok(ts, j, "id") THEN BadP
             ELSE IF LowB(ts[j].s) \in {InfB, InfinityB} THEN At2(InfBits(w, FALSE), j + 1)
             ELSE IF LowB(ts[j].s) = NanB THEN At2(NanBits(w), j + 1) ELSE BadP
    IN IF ~r.ok THEN BadP ELSE At2(S(t, IF neg THEN FlipSign(r.v) ELSE r.v), r.i)
TrueIds == {TrueB, <<84, 114, 117, 101>>, <<116>>}
FalseIds == {FalseB, <<70, 97, 108, 115, 101>>, <<102>>}
PBool(ts, i) ==
    IF IsTok(ts, i, "id") THEN (IF ts[i].s \in TrueIds THEN At2(S("bool", <<1>>), i + 1) ELSE IF ts[i].s \in FalseIds THEN At2(S("bool", <<0>>), i + 1) ELSE BadP)
    ELSE IF ~IsTok(ts, i, "int") THEN BadP
    ELSE LET d == IntTok(ts[i], 1) IN IF d.ok /\ d.b[1] <= 1 THEN At2(S("bool", d.b), i + 1) ELSE BadP
RECURSIVE PStr(_, _, _)
PStr(ts, i, acc) == IF IsTok(ts, i, "str") THEN PStr(ts, i + 1, acc \o ts[i].s) ELSE At2(acc, i)
PEnum(C, tn, ts, i) ==
    IF IsTok(ts, i, "id") THEN
        LET vs == C.en[tn].vals
            p == PositionOf(vs, LAMBDA v : B(v.name) = ts[i].s)
        IN IF p = 0 THEN BadP ELSE At2(S("enum", IntBytes(vs[p].num, 4)), i + 1)
    ELSE LET r == PInt("i32", ts, i) IN IF r.ok THEN At2(S("enum", r.v.s), r.i) ELSE BadP
RECURSIVE PIdent(_, _, _)
(* a dotted name; v is its text *)
PIdent(ts, i, acc) ==
    IF ~IsTok(ts, i, "id") THEN BadP
    ELSE LET a == acc \o ts[i].s IN IF IsP(ts, i + 1, 46) THEN PIdent(ts, i + 2, Append(a, 46)) ELSE At2(a, i + 1)
FindText(C, mt, s) ==
    LET fs == SeqToSet(C.mt[mt].idx)
        g == {f \in fs : f.group /\ f.nb = LowB(s) /\ B(LastSeg(f.tn)) = s}
    IN IF \E f \in fs : f.nb = s /\ ~f.group THEN <<CHOOSE f \in fs : f.nb = s>>
       ELSE IF g # {} THEN <<CHOOSE f \in g : TRUE>> ELSE <<>>
RECURSIVE PMsg(_, _, _, _, _, _), PField(_, _, _, _, _), PValue(_, _, _, _, _), PList(_, _, _, _, _, _), PSub(_, _, _, _, _), PInto(_, _, _, _, _, _, _), PutPairs(_, _, _, _, _)
PMsg(C, m, ts, i, term, fw) ==
    IF term = 0 /\ i > Len(ts) THEN At2(m, i)
    ELSE IF term # 0 /\ IsP(ts, i, term) THEN At2(m, i + 1)
    ELSE LET r == PField(C, m, ts, i, fw) IN IF r.ok THEN PMsg(C, r.v, ts, r.i, term, fw) ELSE BadP
PSub(C, m, ts, i, fw) == IF IsP(ts, i, 123) THEN PMsg(C, m, ts, i + 1, 125, fw) ELSE IF IsP(ts, i, 60) THEN PMsg(C, m, ts, i + 1, 62, fw) ELSE BadP
PField(C, m, ts, i, fw) ==
    LET br == IsP(ts, i, 91)
        id == IF br THEN PIdent(ts, i + 1, <<>>) ELSE IF IsTok(ts, i, "id") THEN At2(ts[i].s, i + 1) ELSE BadP
        any == br /\ id.ok /\ IsP(ts, id.i, 47)
        ty == IF any THEN PIdent(ts, id.i + 1, <<>>) ELSE id
    IN IF ~id.ok THEN BadP
       ELSE IF ~ty.ok THEN BadP
       ELSE IF br /\ ~IsP(ts, ty.i, 93) THEN BadP
       ELSE LET j == IF br THEN ty.i + 1 ELSE id.i
                colon == IsP(ts, j, 58)
                k == IF colon THEN j + 1 ELSE j
                xn == StrOf(id.v)
                tn == StrOf(ty.v)
                f == IF any THEN <<>>
                     ELSE IF br THEN (IF xn \in DOMAIN C.mt[m.n].xnames THEN <<C.mt[m.n].x[C.mt[m.n].xnames[xn]]>> ELSE <<>>)
                     ELSE FindText(C, m.n, id.v)
                After(r) == IF ~r.ok THEN BadP ELSE At2(r.v, IF IsP(ts, r.i, 44) \/ IsP(ts, r.i, 59) THEN r.i + 1 ELSE r.i)
            IN IF ~colon /\ ~IsP(ts, k, 123) /\ ~IsP(ts, k, 60) /\ ~IsP(ts, k, 91) THEN BadP
               ELSE IF any THEN
                    IF m.n # P("Any") \/ tn \notin DOMAIN C.mt THEN BadP
                    ELSE LET r == PSub(C, MsgV(tn, <<>>), ts, k, fw)
                         IN IF ~r.ok THEN BadP
                            ELSE After(At2(Put(Put(m, VE(1, S("string", id.v \o <<47>> \o ty.v))), VE(2, S("bytes", Encode(C.mt, Norm(C.mt, r.v))))), r.i))
               ELSE IF f = <<>> THEN BadP
               ELSE IF ~colon /\ IsP(ts, k, 91) /\ f[1].kind # "message" THEN BadP
               ELSE After(PInto(C, m, f[1], ts, k, fw, 0))
(* one field's value added to the message *)
PutPairs(C, f, p, l, i) ==
    IF i > Len(l) THEN p
    ELSE LET e == C.mt[f.tn] IN PutPairs(C, f, MapPut(p, Current(l[i], e.f[1]), Current(l[i], e.f[2])), l, i + 1)
PInto(C, m, f, ts, i, fw, z) ==
    IF f.list \/ f.map THEN
        LET r == IF IsP(ts, i, 91) THEN (IF IsP(ts, i + 1, 93) THEN At2(<<>>, i + 2) ELSE PList(C, f, ts, i + 1, <<>>, fw))
                 ELSE LET x == PValue(C, f, ts, i, fw) IN IF x.ok THEN At2(<<x.v>>, x.i) ELSE BadP
        IN IF ~r.ok THEN BadP
           ELSE IF f.list THEN At2(SetF(C.mt, m, f, ListV(Current(m, f).l \o r.v)), r.i)
           ELSE At2(SetF(C.mt, m, f, MapV(PutPairs(C, f, Current(m, f).p, r.v, 1))), r.i)
    ELSE LET r == PValue(C, f, ts, i, fw)
         IN IF ~r.ok THEN BadP
            ELSE IF Has(m, f) THEN BadP
            ELSE IF f.oneof # 0 /\ \E k \in C.mt[m.n].sibs[f.oneof] : Has(m, C.mt[m.n].f[k]) THEN BadP
            ELSE At2(SetF(C.mt, m, f, r.v), r.i)
PList(C, f, ts, i, acc, fw) ==
    LET r == PValue(C, f, ts, i, fw) IN
    IF ~r.ok THEN BadP
    ELSE IF IsP(ts, r.i, 44) THEN PList(C, f, ts, r.i + 1, Append(acc, r.v), fw)
    ELSE IF IsP(ts, r.i, 93) THEN At2(Append(acc, r.v), r.i + 1)
    ELSE BadP
PValue(C, f, ts, i, fw) ==
    LET t == Tag(f.kind) IN
    CASE f.kind = "message" -> PSub(C, MsgV(f.tn, <<>>), ts, i, fw)
      [] f.kind = "enum" -> PEnum(C, f.tn, ts, i)
      [] t \in {"i32", "i64", "u32", "u64"} -> PInt(t, ts, i)
      [] t \in {"f32", "f64"} -> PFloat(t, ts, i, fw)
      [] t = "bool" -> PBool(ts, i)
      [] OTHER -> IF ~IsTok(ts, i, "str") THEN BadP
                  ELSE LET r == PStr(ts, i, <<>>) IN IF t = "string" /\ ~ValidUtf8(r.v) THEN BadP ELSE At2(S(t, r.v), r.i)
(* the message a text denotes when read into m *)
ReadText(C, m, tx, fw) == LET l == Lex(tx, 1, <<>>) IN IF ~l.ok THEN BadP ELSE PMsg(C, m, l.v, 1, 0, fw)

(* ---- what text carries: everything but unknown fields and the bits of NaNs ---- *)
RECURSIVE Kept(_, _), KeptV(_, _)
KeptV(C, v) == CASE v.t = "msg" -> Kept(C, v)
                 [] v.t = "list" -> ListV([i \in DOMAIN v.l |-> KeptV(C, v.l[i])])
                 [] v.t = "map" -> MapV([i \in DOMAIN v.p |-> <<v.p[i][1], KeptV(C, v.p[i][2])>>])
                 [] v.t \in {"f32", "f64"} -> IF IsNanBits(v.s) THEN S(v.t, NanBits(Len(v.s))) ELSE v
                 [] OTHER -> v
Kept(C, m) ==
    LET es == SelectSeq(m.m, LAMBDA e : e.k = "v")
        x == MsgV(m.n, [i \in DOMAIN es |-> VE(es[i].n, KeptV(C, es[i].v))])
        tn == UrlType(C, Fld(x, 1, "string"))
        r == Decode(C.mt, tn, Fld(x, 2, "bytes"))
    IN IF m.n # P("Any") THEN x
       ELSE IF tn = "" THEN x
       ELSE IF ~r.ok THEN x
       ELSE LET b == Encode(C.mt, Kept(C, Norm(C.mt, r.v)))
            IN MsgV(m.n, SelectSeq(x.m, LAMBDA e : e.n < 2) \o (IF b = <<>> THEN <<>> ELSE <<VE(2, S("bytes", b))>>))
=============================================================================
