-------------------------------- MODULE Wire --------------------------------
(* The protobuf binary format.                                              *)
EXTENDS Store

WireType(kind) == CASE kind \in {"double", "fixed64", "sfixed64"} -> 1
                    [] kind \in {"float", "fixed32", "sfixed32"} -> 5
                    [] kind \in {"string", "bytes", "message"} -> 2
                    [] OTHER -> 0
(* field numbers are below 2^29: 8 * number + wire type fits when handled as bytes *)
KeyBytes(n, wt) == IF n < 268435455 THEN VarintNat(8 * n + wt)
                   ELSE VarintBytes([i \in 1..8 |-> IF i = 1 THEN (n % 32) * 8 + wt ELSE IF i <= 4 THEN (n \div Pow2[8 * (i - 1) - 3]) % 256 ELSE 0])
LenBytes(b) == VarintNat(Len(b)) \o b

(* payload of a scalar *)
ScalarBytes(kind, b) ==
    CASE kind \in {"int32", "enum"} -> VarintBytes(SignExt(b, 8))
      [] kind \in {"int64", "uint64"} -> VarintBytes(b)
      [] kind = "uint32" -> VarintBytes(ZeroExt(b, 8))
      [] kind = "bool" -> b
      [] kind \in {"sint32", "sint64"} -> VarintBytes(ZeroExt(ZigZag(b), 8))
      [] kind \in {"string", "bytes"} -> LenBytes(b)
      [] OTHER -> b

RECURSIVE UnknownBytes(_)
UnknownBytes(u) ==
    IF u.w = 3 THEN KeyBytes(u.n, 3) \o Concat([i \in DOMAIN u.g |-> UnknownBytes(u.g[i])]) \o KeyBytes(u.n, 4)
    ELSE KeyBytes(u.n, u.w) \o (CASE u.w = 0 -> VarintBytes(u.p) [] u.w = 2 -> LenBytes(u.p) [] OTHER -> u.p)

(* entries in encoding order: declared fields by number, then extensions and unknown fields by number *)
EncodeOrder(MT, m) == SelectSeq(m.m, LAMBDA e : e.n \in DOMAIN MT[m.n].f) \o SelectSeq(m.m, LAMBDA e : e.n \notin DOMAIN MT[m.n].f)

RECURSIVE Encode(_, _), EncodeField(_, _, _), EncodeOne(_, _, _)
EncodeOne(MT, f, v) ==
    IF f.kind = "message" THEN
        IF f.group THEN KeyBytes(f.num, 3) \o Encode(MT, v) \o KeyBytes(f.num, 4)
        ELSE KeyBytes(f.num, 2) \o LenBytes(Encode(MT, v))
    ELSE KeyBytes(f.num, WireType(f.kind)) \o ScalarBytes(f.kind, v.s)
EncodeField(MT, f, v) ==
    IF ~HasV(f, v) THEN <<>>
    ELSE IF f.list THEN
        IF f.packed THEN KeyBytes(f.num, 2) \o LenBytes(Concat([i \in DOMAIN v.l |-> ScalarBytes(f.kind, v.l[i].s)]))
        ELSE Concat([i \in DOMAIN v.l |-> EncodeOne(MT, f, v.l[i])])
    ELSE IF f.map THEN
        LET kf == MT[f.tn].f[1]  vf == MT[f.tn].f[2]
        IN Concat([i \in DOMAIN v.p |-> KeyBytes(f.num, 2) \o LenBytes(EncodeField(MT, kf, v.p[i][1]) \o EncodeField(MT, vf, v.p[i][2]))])
    ELSE EncodeOne(MT, f, v)
Encode(MT, m) ==
    LET es == EncodeOrder(MT, m)
    IN Concat([i \in DOMAIN es |-> IF es[i].k = "u" THEN Concat([j \in DOMAIN es[i].u |-> UnknownBytes(es[i].u[j])])
                                   ELSE EncodeField(MT, Lookup(MT, m.n, es[i].n), es[i].v)])

(* ---- decoding: results are [ok |-> TRUE, v, i] or Bad; i is the next position ---- *)
Bad == [ok |-> FALSE]
RECURSIVE VarintEnd(_, _, _)
VarintEnd(b, i, e) == IF i > e THEN 0 ELSE IF b[i] < 128 THEN i ELSE VarintEnd(b, i + 1, e)
(* at most ten bytes, the tenth at most 1 *)
ReadVarint(b, i, e) ==
    LET j == VarintEnd(b, i, IF e < i + 9 THEN e ELSE i + 9)
    IN IF j = 0 \/ (j = i + 9 /\ b[j] > 1) THEN Bad
       ELSE [ok |-> TRUE, v |-> GroupsToBytes(SubSeq(b, i, j)), i |-> j + 1]
ReadKey(b, i, e) ==
    LET r == ReadVarint(b, i, e)
    IN IF ~r.ok THEN Bad
       ELSE IF \E k \in 5..8 : r.v[k] # 0 THEN Bad
       ELSE LET wt == r.v[1] % 8
                n == (r.v[1] \div 8) + 32 * (r.v[2] + 256 * (r.v[3] + 256 * r.v[4]))
            IN IF wt > 5 \/ n = 0 THEN Bad ELSE [ok |-> TRUE, n |-> n, w |-> wt, i |-> r.i]
ReadLen(b, i, e) ==
    LET r == ReadVarint(b, i, e)
    IN IF ~r.ok THEN Bad
       ELSE IF ~FitsNat(r.v) THEN Bad
       ELSE IF ToNat(r.v) > e - r.i + 1 THEN Bad ELSE [ok |-> TRUE, n |-> ToNat(r.v), i |-> r.i]
ReadFixed(b, i, e, k) == IF e - i + 1 < k THEN Bad ELSE [ok |-> TRUE, v |-> SubSeq(b, i, i + k - 1), i |-> i + k]

FromVarint(kind, v) == CASE kind \in {"int32", "uint32", "enum"} -> Trunc(v, 4)
                         [] kind = "bool" -> <<IF IsZero(v) THEN 0 ELSE 1>>
                         [] kind = "sint32" -> UnZigZag(Trunc(v, 4))
                         [] kind = "sint64" -> UnZigZag(v)
                         [] OTHER -> v
ReadScalar(kind, w, b, i, e) ==
    IF w # WireType(kind) THEN Bad
    ELSE IF w = 0 THEN LET r == ReadVarint(b, i, e) IN IF r.ok THEN [ok |-> TRUE, v |-> FromVarint(kind, r.v), i |-> r.i] ELSE Bad
    ELSE IF w = 1 THEN ReadFixed(b, i, e, 8)
    ELSE IF w = 5 THEN ReadFixed(b, i, e, 4)
    ELSE LET r == ReadLen(b, i, e)
         IN IF ~r.ok THEN Bad
            ELSE LET s == SubSeq(b, r.i, r.i + r.n - 1)
                 IN IF kind = "string" /\ ~ValidUtf8(s) THEN Bad ELSE [ok |-> TRUE, v |-> s, i |-> r.i + r.n]

(* skipping a field inside a map entry *)
RECURSIVE Skip(_, _, _, _, _, _), SkipGroup(_, _, _, _, _)
SkipGroup(n, b, i, e, d) ==
    LET k == ReadKey(b, i, e)
    IN IF ~k.ok THEN Bad
       ELSE IF k.w = 4 THEN (IF k.n = n THEN [ok |-> TRUE, i |-> k.i] ELSE Bad)
       ELSE LET r == Skip(k.n, k.w, b, k.i, e, d - 1) IN IF r.ok THEN SkipGroup(n, b, r.i, e, d) ELSE Bad
Skip(n, w, b, i, e, d) ==
    IF d = 0 THEN Bad
    ELSE CASE w = 0 -> LET r == ReadVarint(b, i, e) IN IF r.ok THEN [ok |-> TRUE, i |-> r.i] ELSE Bad
           [] w = 1 -> IF e - i + 1 < 8 THEN Bad ELSE [ok |-> TRUE, i |-> i + 8]
           [] w = 5 -> IF e - i + 1 < 4 THEN Bad ELSE [ok |-> TRUE, i |-> i + 4]
           [] w = 2 -> LET r == ReadLen(b, i, e) IN IF r.ok THEN [ok |-> TRUE, i |-> r.i + r.n] ELSE Bad
           [] w = 3 -> SkipGroup(n, b, i, e, d)
           [] OTHER -> Bad

RECURSIVE ReadUnknown(_, _, _, _, _, _), ReadUnknownGroup(_, _, _, _, _, _)
ReadUnknownGroup(n, b, i, e, d, acc) ==
    LET k == ReadKey(b, i, e)
    IN IF ~k.ok THEN Bad
       ELSE IF k.w = 4 THEN (IF k.n = n THEN [ok |-> TRUE, v |-> [n |-> n, w |-> 3, g |-> acc], i |-> k.i] ELSE Bad)
       ELSE LET r == ReadUnknown(k.n, k.w, b, k.i, e, d - 1) IN IF r.ok THEN ReadUnknownGroup(n, b, r.i, e, d, Append(acc, r.v)) ELSE Bad
ReadUnknown(n, w, b, i, e, d) ==
    CASE w = 0 -> LET r == ReadVarint(b, i, e) IN IF r.ok THEN [ok |-> TRUE, v |-> [n |-> n, w |-> 0, p |-> r.v], i |-> r.i] ELSE Bad
      [] w = 1 -> LET r == ReadFixed(b, i, e, 8) IN IF r.ok THEN [ok |-> TRUE, v |-> [n |-> n, w |-> 1, p |-> r.v], i |-> r.i] ELSE Bad
      [] w = 5 -> LET r == ReadFixed(b, i, e, 4) IN IF r.ok THEN [ok |-> TRUE, v |-> [n |-> n, w |-> 5, p |-> r.v], i |-> r.i] ELSE Bad
      [] w = 2 -> LET r == ReadLen(b, i, e) IN IF r.ok THEN [ok |-> TRUE, v |-> [n |-> n, w |-> 2, p |-> SubSeq(b, r.i, r.i + r.n - 1)], i |-> r.i + r.n] ELSE Bad
      [] w = 3 -> IF d = 0 THEN Bad ELSE ReadUnknownGroup(n, b, i, e, d, <<>>)
      [] OTHER -> Bad

(* messages; d is the remaining nesting budget of the enclosing message *)
RECURSIVE DecodeInto(_, _, _, _, _, _), DecodeGroup(_, _, _, _, _, _, _), MergeEntry(_, _, _, _, _, _, _, _), MergeOne(_, _, _, _, _, _, _, _),
          MergePacked(_, _, _, _, _), ReadEntry(_, _, _, _, _, _, _, _)
(* the value an element of a repeated field is merged into *)
ZeroElem(f) == IF f.kind = "message" THEN MsgV(f.tn, <<>>) ELSE S("bool", <<0>>)
(* one value of field f (not list, not map) merged into cur *)
MergeOne(MT, f, cur, w, b, i, e, d) ==
    IF f.kind = "message" THEN
        IF f.group THEN (IF w # 3 \/ d = 0 THEN Bad ELSE DecodeGroup(MT, f.num, cur, b, i, e, d - 1))
        ELSE IF w # 2 \/ d = 0 THEN Bad
        ELSE LET r == ReadLen(b, i, e)
             IN IF ~r.ok THEN Bad
                ELSE LET x == DecodeInto(MT, cur, b, r.i, r.i + r.n - 1, d - 1) IN IF x.ok THEN [ok |-> TRUE, v |-> x.v, i |-> r.i + r.n] ELSE Bad
    ELSE LET r == ReadScalar(f.kind, w, b, i, e) IN IF r.ok THEN [ok |-> TRUE, v |-> S(Tag(f.kind), r.v), i |-> r.i] ELSE Bad
MergePacked(f, acc, b, i, e) ==
    IF i > e THEN [ok |-> TRUE, v |-> acc, i |-> i]
    ELSE LET r == ReadScalar(f.kind, WireType(f.kind), b, i, e)
         IN IF r.ok THEN MergePacked(f, Append(acc, S(Tag(f.kind), r.v)), b, r.i, e) ELSE Bad
ReadEntry(MT, kf, vf, k, v, b, i, st) ==
    \* st = [e, d]
    IF i > st.e THEN [ok |-> TRUE, k |-> k, v |-> v]
    ELSE LET key == ReadKey(b, i, st.e)
         IN IF ~key.ok THEN Bad
            ELSE IF key.n = 1 THEN LET r == MergeOne(MT, kf, k, key.w, b, key.i, st.e, st.d) IN IF r.ok THEN ReadEntry(MT, kf, vf, r.v, v, b, r.i, st) ELSE Bad
            ELSE IF key.n = 2 THEN LET r == MergeOne(MT, vf, v, key.w, b, key.i, st.e, st.d) IN IF r.ok THEN ReadEntry(MT, kf, vf, k, r.v, b, r.i, st) ELSE Bad
            ELSE LET r == Skip(key.n, key.w, b, key.i, st.e, st.d) IN IF r.ok THEN ReadEntry(MT, kf, vf, k, v, b, r.i, st) ELSE Bad
MergeEntry(MT, f, cur, w, b, i, e, d) ==
    IF f.list THEN
        IF w = 2 /\ Packable(f.kind) THEN
            LET r == ReadLen(b, i, e)
            IN IF ~r.ok THEN Bad ELSE LET x == MergePacked(f, cur.l, b, r.i, r.i + r.n - 1) IN IF x.ok THEN [ok |-> TRUE, v |-> ListV(x.v), i |-> x.i] ELSE Bad
        ELSE LET r == MergeOne(MT, f, ZeroElem(f), w, b, i, e, d) IN IF r.ok THEN [ok |-> TRUE, v |-> ListV(Append(cur.l, r.v)), i |-> r.i] ELSE Bad
    ELSE IF f.map THEN
        IF w # 2 THEN Bad
        ELSE LET r == ReadLen(b, i, e)
                 kf == MT[f.tn].f[1]
                 vf == MT[f.tn].f[2]
             IN IF ~r.ok THEN Bad
                ELSE LET x == ReadEntry(MT, kf, vf, S(Tag(kf.kind), Zeros[Width(Tag(kf.kind))]), vf.dflt, b, r.i, [e |-> r.i + r.n - 1, d |-> d])
                     IN IF x.ok THEN [ok |-> TRUE, v |-> MapV(MapPut(cur.p, x.k, x.v)), i |-> r.i + r.n] ELSE Bad
    ELSE MergeOne(MT, f, cur, w, b, i, e, d)
ApplyKey(MT, m, k, b, e, d) ==
    IF Knows(MT, m.n, k.n) THEN
        LET f == Lookup(MT, m.n, k.n)
            r == MergeEntry(MT, f, Current(m, f), k.w, b, k.i, e, d)
        IN IF r.ok THEN [ok |-> TRUE, v |-> SetF(MT, m, f, r.v), i |-> r.i] ELSE Bad
    ELSE LET r == ReadUnknown(k.n, k.w, b, k.i, e, d) IN IF r.ok THEN [ok |-> TRUE, v |-> AddUnknown(m, r.v), i |-> r.i] ELSE Bad
DecodeInto(MT, m, b, i, e, d) ==
    IF i > e THEN [ok |-> TRUE, v |-> m, i |-> i]
    ELSE LET k == ReadKey(b, i, e)
         IN IF ~k.ok THEN Bad
            ELSE LET r == ApplyKey(MT, m, k, b, e, d) IN IF r.ok THEN DecodeInto(MT, r.v, b, r.i, e, d) ELSE Bad
DecodeGroup(MT, n, m, b, i, e, d) ==
    LET k == ReadKey(b, i, e)
    IN IF ~k.ok THEN Bad
       ELSE IF k.w = 4 THEN (IF k.n = n THEN [ok |-> TRUE, v |-> m, i |-> k.i] ELSE Bad)
       ELSE LET r == ApplyKey(MT, m, k, b, e, d) IN IF r.ok THEN DecodeGroup(MT, n, r.v, b, r.i, e, d) ELSE Bad

RecursionLimit == 100
Merge(MT, m, b) == DecodeInto(MT, m, b, 1, Len(b), RecursionLimit)
Decode(MT, mt, b) == Merge(MT, MsgV(mt, <<>>), b)
=============================================================================
