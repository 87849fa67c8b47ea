------------------------------- MODULE Options -------------------------------
(* What a pool keeps of the files it accepted: the file descriptors as        *)
(* messages of descriptor.proto, their options interpreted.                   *)
(* G is the tables of descriptor.proto itself; X is the context of one file:  *)
(* [T, mt, en, env, fw, nw] with the pool's tables, the message table          *)
(* (the pool's own descriptor.proto first), what the file sees, and the        *)
(* nearest floats of the numbers occurring in options.                         *)
EXTENDS TextFmt, Pool

FDP == P("FileDescriptorProto")
Subs(m, n) == IF At(m, n) = 0 THEN <<>> ELSE m.m[At(m, n)].v.l
Had(m, n) == At(m, n) # 0
ValAt(m, n) == m.m[At(m, n)].v
Nm(m) == IF Had(m, 1) THEN StrOf(ValAt(m, 1).s) ELSE ""

(* ---- everything in a file that has options: path, type and scope ---- *)
Hold(m, n, path, kind, segs) == IF Had(m, n) THEN <<[path |-> Append(path, n), kind |-> P(kind), opt |-> ValAt(m, n), segs |-> segs]>> ELSE <<>>
Each(m, n, F(_, _)) == Concat([i \in DOMAIN Subs(m, n) |-> F(Subs(m, n)[i], i)])
EnumHolds(e, path, scope) ==
    Hold(e, 3, path, "EnumOptions", Append(scope, Nm(e)))
    \o Each(e, 2, LAMBDA v, i : Hold(v, 3, path \o <<2, i - 1>>, "EnumValueOptions", Append(scope, Nm(v))))
FieldHolds(f, path, scope) == Hold(f, 8, path, "FieldOptions", Append(scope, Nm(f)))
RECURSIVE MsgHolds(_, _, _)
MsgHolds(m, path, scope) ==
    LET segs == Append(scope, Nm(m)) IN
    Hold(m, 7, path, "MessageOptions", segs)
    \o Each(m, 2, LAMBDA f, i : FieldHolds(f, path \o <<2, i - 1>>, segs))
    \o Each(m, 3, LAMBDA x, i : MsgHolds(x, path \o <<3, i - 1>>, segs))
    \o Each(m, 4, LAMBDA x, i : EnumHolds(x, path \o <<4, i - 1>>, segs))
    \o Each(m, 5, LAMBDA x, i : Hold(x, 3, path \o <<5, i - 1>>, "ExtensionRangeOptions", segs))
    \o Each(m, 6, LAMBDA f, i : FieldHolds(f, path \o <<6, i - 1>>, segs))
    \o Each(m, 8, LAMBDA x, i : Hold(x, 2, path \o <<8, i - 1>>, "OneofOptions", Append(segs, Nm(x))))
SvcHolds(s, path, scope) ==
    LET segs == Append(scope, Nm(s)) IN
    Hold(s, 3, path, "ServiceOptions", segs)
    \o Each(s, 2, LAMBDA m, i : Hold(m, 4, path \o <<2, i - 1>>, "MethodOptions", Append(segs, Nm(m))))
Holders(M, pkg) ==
    Hold(M, 8, <<>>, "FileOptions", pkg)
    \o Each(M, 4, LAMBDA x, i : MsgHolds(x, <<4, i - 1>>, pkg))
    \o Each(M, 5, LAMBDA x, i : EnumHolds(x, <<5, i - 1>>, pkg))
    \o Each(M, 6, LAMBDA x, i : SvcHolds(x, <<6, i - 1>>, pkg))
    \o Each(M, 7, LAMBDA x, i : FieldHolds(x, <<7, i - 1>>, pkg))

(* ---- one option in source form ---- *)
RefOf(b) ==
    IF b = <<>> THEN [abs |-> FALSE, segs |-> <<"">>]
    ELSE LET abs == b[1] = 46
             ss == SplitOn(IF abs THEN Tail(b) ELSE b, 46, 1, <<>>)
         IN [abs |-> abs, segs |-> [i \in DOMAIN ss |-> StrOf(ss[i])]]
XInfo(T, full) == T.xinfo[CHOOSE i \in DOMAIN T.exts : T.exts[i].full = full]
(* the field one part of an option's name denotes within a message of type mt *)
PartField(X, scope, mt, part) ==
    LET nb == ValAt(part, 1).s IN
    IF ValAt(part, 2).s = <<1>> THEN
        LET n == Resolve(X.env, scope, <<RefOf(nb)>>, {"ext"}) IN
        IF n = "" THEN <<>> ELSE IF XInfo(X.T, n).to = mt THEN <<XInfo(X.T, n).f>> ELSE <<>>
    ELSE IF StrOf(nb) \in DOMAIN X.mt[mt].names THEN <<X.mt[mt].f[X.mt[mt].names[StrOf(nb)]]>> ELSE <<>>

Narrow(t, b) == CASE t = "i32" -> IF SignExt(Trunc(b, 4), 8) = b THEN Yes(Trunc(b, 4)) ELSE NoVal
                  [] t = "u32" -> IF ZeroExt(Trunc(b, 4), 8) = b THEN Yes(Trunc(b, 4)) ELSE NoVal
                  [] OTHER -> Yes(b)
Nearest(X, k, b) == LET i == {j \in DOMAIN X.nw : X.nw[j].k = k /\ X.nw[j].b = b} IN X.nw[CHOOSE j \in i : TRUE]
OptInt(t, u) ==
    IF Had(u, 4) THEN LET b == ValAt(u, 4).s IN IF t \in {"i32", "i64"} /\ IsNeg(b) THEN NoVal ELSE Narrow(t, b)
    ELSE IF Had(u, 5) THEN LET b == ValAt(u, 5).s IN IF t \in {"u32", "u64"} /\ IsNeg(b) THEN NoVal ELSE Narrow(t, b)
    ELSE NoVal
OptFloat(X, t, u) ==
    LET k == IF Had(u, 6) THEN 6 ELSE IF Had(u, 4) THEN 4 ELSE IF Had(u, 5) THEN 5 ELSE 0
    IN IF k = 0 THEN NoVal ELSE LET w == Nearest(X, k, ValAt(u, k).s) IN Yes(IF t = "f64" THEN w.d ELSE w.f)
OptMsg(X, tn, u) ==
    IF ~Had(u, 8) THEN NoVal
    ELSE LET r == ReadText([mt |-> X.mt, en |-> X.en, ew |-> <<>>], MsgV(tn, <<>>), ValAt(u, 8).s, X.fw) IN IF r.ok THEN Yes(r.v) ELSE NoVal
OptOne(X, f, u) ==
    LET t == Tag(f.kind)
        R(p) == IF p.ok THEN Yes(S(t, p.v)) ELSE NoVal
        id == IF Had(u, 3) THEN ValAt(u, 3).s ELSE <<>>
    IN CASE t = "msg" -> OptMsg(X, f.tn, u)
         [] t = "bool" -> IF id = TrueB THEN Yes(S(t, <<1>>)) ELSE IF id = FalseB THEN Yes(S(t, <<0>>)) ELSE NoVal
         [] t \in {"i32", "i64", "u32", "u64"} -> R(OptInt(t, u))
         [] t \in {"f32", "f64"} -> R(OptFloat(X, t, u))
         [] t = "string" -> IF ~Had(u, 7) THEN NoVal ELSE IF ValidUtf8(ValAt(u, 7).s) THEN Yes(S(t, ValAt(u, 7).s)) ELSE NoVal
         [] t = "bytes" -> IF Had(u, 7) THEN Yes(S(t, ValAt(u, 7).s)) ELSE NoVal
         [] OTHER -> LET vs == X.en[f.tn].vals
                         p == PositionOf(vs, LAMBDA v : B(v.name) = id)
                     IN IF ~Had(u, 3) \/ p = 0 THEN NoVal ELSE Yes(S("enum", IntBytes(vs[p].num, 4)))
OptVal(X, f, cur, u) ==
    IF f.list THEN LET r == OptOne(X, f, u) IN IF r.ok THEN Yes(ListV(Append(cur.l, r.v))) ELSE NoVal
    ELSE IF f.map THEN
        LET r == OptMsg(X, f.tn, u)  e == X.mt[f.tn]
        IN IF r.ok THEN Yes(MapV(MapPut(cur.p, Current(r.v, e.f[1]), Current(r.v, e.f[2])))) ELSE NoVal
    ELSE OptOne(X, f, u)
(* the message with the option set, and the path of what was set *)
RECURSIVE SetOption(_, _, _, _, _, _, _)
SetOption(X, scope, m, parts, k, u, acc) ==
    LET g == PartField(X, scope, m.n, parts[k]) IN
    IF g = <<>> THEN NoVal
    ELSE LET f == g[1]  cur == Current(m, f)  p == Append(acc, f.num) IN
    IF k = Len(parts) THEN
        IF f.card # 3 /\ Has(m, f) THEN NoVal
        ELSE LET r == OptVal(X, f, cur, u)
             IN IF r.ok THEN [ok |-> TRUE, v |-> SetF(X.mt, m, f, r.v), p |-> IF f.list THEN Append(p, Len(cur.l)) ELSE p] ELSE NoVal
    ELSE IF f.kind # "message" \/ f.list \/ f.map THEN NoVal
    ELSE LET r == SetOption(X, scope, cur, parts, k + 1, u, p)
         IN IF r.ok THEN [r EXCEPT !.v = SetF(X.mt, m, f, @)] ELSE NoVal
RECURSIVE SetOptions(_, _, _, _, _, _)
SetOptions(X, h, m, us, i, moves) ==
    IF i > Len(us) THEN [ok |-> TRUE, v |-> Del(m, {999}), moves |-> moves]
    ELSE LET r == SetOption(X, h.segs, m, Subs(us[i], 2), 1, us[i], h.path)
         IN IF r.ok THEN SetOptions(X, h, r.v, us, i + 1, Append(moves, [from |-> h.path \o <<999, i - 1>>, to |-> r.p]))
            ELSE [ok |-> FALSE, at |-> {h.path \o <<999, i - 1>>}]
(* [ok, v, moves], or the place of the option that cannot be interpreted (none: the options as a whole) *)
Interpret(X, G, h) ==
    LET m == Decode(X.mt, h.kind, Encode(G.mt, h.opt))
    IN IF m.ok THEN SetOptions(X, h, m.v, Subs(h.opt, 999), 1, <<>>) ELSE [ok |-> FALSE, at |-> {}]

(* ---- the file as kept: options interpreted, references absolute, names derived ---- *)
StrV(s) == S("string", B(s))
EnumV(n) == S("enum", IntBytes(n, 4))
MapL(m, n, F(_, _)) == IF ~Had(m, n) THEN m ELSE Put(m, VE(n, ListV([i \in DOMAIN Subs(m, n) |-> F(Subs(m, n)[i], i)])))
Swap(m, n, path, R) == IF Append(path, n) \in DOMAIN R THEN Put(m, VE(n, R[Append(path, n)])) ELSE m
KeepField(f, info, path, R) ==
    LET a == IF Had(f, 10) THEN f ELSE Put(f, VE(10, StrV(JsonNameOf(Nm(f)))))
        b == IF info.tn = "" THEN a
             ELSE LET x == Put(a, VE(6, StrV("." \o info.tn))) IN IF info.group THEN x ELSE Put(x, VE(5, EnumV(IF info.kind = "enum" THEN 14 ELSE 11)))
    IN Swap(b, 8, path, R)
KeepExt(T, f, path, scope, R) ==
    LET x == XInfo(T, JoinSegs(Append(scope, Nm(f)))) IN Put(KeepField(f, x.f, path, R), VE(2, StrV("." \o x.to)))
KeepEnum(e, path, R) == Swap(MapL(e, 2, LAMBDA v, i : Swap(v, 3, path \o <<2, i - 1>>, R)), 3, path, R)
RECURSIVE KeepMsg(_, _, _, _, _)
KeepMsg(T, m, path, scope, R) ==
    LET segs == Append(scope, Nm(m))
        fs == T.mt[JoinSegs(segs)].idx
        m2 == MapL(m, 2, LAMBDA f, i : KeepField(f, fs[i], path \o <<2, i - 1>>, R))
        m3 == MapL(m2, 3, LAMBDA x, i : KeepMsg(T, x, path \o <<3, i - 1>>, segs, R))
        m4 == MapL(m3, 4, LAMBDA x, i : KeepEnum(x, path \o <<4, i - 1>>, R))
        m5 == MapL(m4, 5, LAMBDA x, i : Swap(x, 3, path \o <<5, i - 1>>, R))
        m6 == MapL(m5, 6, LAMBDA f, i : KeepExt(T, f, path \o <<6, i - 1>>, segs, R))
        m8 == MapL(m6, 8, LAMBDA x, i : Swap(x, 2, path \o <<8, i - 1>>, R))
    IN Swap(m8, 7, path, R)
KeepSvc(T, env, s, path, scope, R) ==
    LET segs == Append(scope, Nm(s))
        Ty(m, n) == VE(n, StrV("." \o Resolve(env, Append(segs, Nm(m)), <<RefOf(ValAt(m, n).s)>>, {"msg"})))
    IN Swap(MapL(s, 2, LAMBDA m, i : Swap(Put(Put(m, Ty(m, 2)), Ty(m, 3)), 4, path \o <<2, i - 1>>, R)), 3, path, R)
PathInts(l) == [i \in DOMAIN l.l |-> ToNat(l.l[i].s)]
MovePath(p, moves) ==
    LET k == PositionOf(moves, LAMBDA v : IsPrefixSeq(v.from, p)) IN
    IF k = 0 THEN p ELSE moves[k].to \o SubSeq(p, Len(moves[k].from) + 1, Len(p))
KeepLocs(sci, moves) == MapL(sci, 1, LAMBDA l, i : IF ~Had(l, 1) THEN l
    ELSE LET q == MovePath(PathInts(ValAt(l, 1)), moves) IN Put(l, VE(1, ListV([j \in DOMAIN q |-> S("i32", IntBytes(q[j], 4))]))))
KeepFile(T, env, M, pkg, R, moves) ==
    LET m4 == MapL(M, 4, LAMBDA x, i : KeepMsg(T, x, <<4, i - 1>>, pkg, R))
        m5 == MapL(m4, 5, LAMBDA x, i : KeepEnum(x, <<5, i - 1>>, R))
        m6 == MapL(m5, 6, LAMBDA x, i : KeepSvc(T, env, x, <<6, i - 1>>, pkg, R))
        m7 == MapL(m6, 7, LAMBDA f, i : KeepExt(T, f, <<7, i - 1>>, pkg, R))
        m9 == IF Had(m7, 9) THEN Put(m7, VE(9, KeepLocs(ValAt(m7, 9), moves))) ELSE m7
    IN Swap(m9, 8, <<>>, R)

(* what the generated descriptor types can carry: the fields they know *)
RECURSIVE KnownOnly(_)
KnownOnly(m) ==
    LET es == SelectSeq(m.m, LAMBDA e : e.k = "v")
        KV(v) == IF v.t = "msg" THEN KnownOnly(v) ELSE IF v.t = "list" THEN ListV([i \in DOMAIN v.l |-> IF v.l[i].t = "msg" THEN KnownOnly(v.l[i]) ELSE v.l[i]]) ELSE v
    IN MsgV(m.n, [i \in DOMAIN es |-> VE(es[i].n, KV(es[i].v))])

(* the source locations of a file *)
LocsOf(M) == IF ~Had(M, 9) THEN <<>>
             ELSE LET ls == Subs(ValAt(M, 9), 1)
                      Ints(l, n) == IF Had(l, n) THEN PathInts(ValAt(l, n)) ELSE <<>>
                  IN [i \in DOMAIN ls |-> [p |-> Ints(ls[i], 1), s |-> Ints(ls[i], 2)]]

(* ---- the transition: one file kept by a pool with tables T; [ok, v] or [ok, at]: places of wrong options ---- *)
FileContext(T, G, fn, fw, nw) == [T |-> T, mt |-> T.mt @@ G.mt, en |-> T.enums @@ G.enums, env |-> T.envs[fn], fw |-> fw, nw |-> nw]
Keep(X, G, f, M) ==
    LET hs == Holders(M, f.pkg)
        rs == [i \in DOMAIN hs |-> Interpret(X, G, hs[i])]
    IN IF \E i \in DOMAIN rs : ~rs[i].ok THEN [ok |-> FALSE, at |-> {rs[i].at : i \in {k \in DOMAIN rs : ~rs[k].ok}}]
       ELSE LET R == [p \in {hs[i].path : i \in DOMAIN hs} |->
                        LET i == CHOOSE i \in DOMAIN hs : hs[i].path = p IN Decode(G.mt, hs[i].kind, Encode(X.mt, rs[i].v)).v]
            IN Yes(KeepFile(X.T, X.env, M, f.pkg, R, Concat([i \in DOMAIN rs |-> rs[i].moves])))

(* ---- what is seen of it ---- *)
(* the options of one definition; n is the number of its options field *)
RECURSIVE StepTo(_, _)
StepTo(m, p) == IF p = <<>> THEN m ELSE StepTo(Subs(m, p[1])[p[2] + 1], SubSeq(p, 3, Len(p)))
Read(mt, G, kind, opt) == LET r == Decode(mt, kind, Encode(G.mt, opt)) IN IF r.ok THEN Norm(mt, r.v) ELSE MsgV(kind, <<>>)
OptionsAt(mt, G, M, path, n, kind) == LET m == StepTo(M, path) IN IF Had(m, n) THEN Read(mt, G, kind, ValAt(m, n)) ELSE MsgV(kind, <<>>)
(* the whole file with its options read by the pool's own types *)
Seen(mt, G, M, pkg) ==
    LET hs == Holders(M, pkg)
        RECURSIVE Cut(_)
        Cut(m) == MsgV(m.n, [i \in DOMAIN m.m |-> LET e == m.m[i] IN
                    IF e.k = "u" THEN e
                    ELSE IF e.v.t = "msg" THEN VE(e.n, IF e.v.n \in {hs[j].kind : j \in DOMAIN hs} THEN MsgV(e.v.n, <<>>) ELSE Cut(e.v))
                    ELSE IF e.v.t = "list" THEN VE(e.n, ListV([j \in DOMAIN e.v.l |-> IF e.v.l[j].t = "msg" THEN Cut(e.v.l[j]) ELSE e.v.l[j]]))
                    ELSE e])
    IN [file |-> Cut(M), opts |-> [i \in DOMAIN hs |-> <<hs[i].path, Read(mt, G, hs[i].kind, hs[i].opt)>>]]
=============================================================================
