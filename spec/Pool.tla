-------------------------------- MODULE Pool --------------------------------
(* The descriptor pool: which batches of files it accepts and what it then   *)
(* reports about every definition.  A pool is the sequence of accepted files.*)
EXTENDS Schema

(* A breach of a rule: which rule, and the places in the file a report of it may *)
(* name (a path into the file descriptor; no places: nothing is pointed at).     *)
Breach(c, tag, fn, at) == IF c THEN <<[t |-> tag, fn |-> fn, at |-> at]>> ELSE <<>>
Nowhere(c, tag) == Breach(c, tag, "", {})
Repeats(s) == Cardinality(SeqToSet(s)) # Len(s)
(* the positions whose value occurred before *)
Repeated(s) == {j \in DOMAIN s : \E i \in 1..(j - 1) : s[i] = s[j]}
Between(n, lo, hi) == lo <= n /\ n <= hi
InHalf(n, rs) == \E i \in DOMAIN rs : rs[i][1] <= n /\ n < rs[i][2]
InClosed(n, rs) == \E i \in DOMAIN rs : rs[i][1] <= n /\ n <= rs[i][2]

(* ---- first part of the rules: file by file and the name space ---- *)
NamesClash(all) ==
    LET np == SelectSeq(all, LAMBDA r : r.k # "pkg")
        nn == {np[i].n : i \in DOMAIN np}
        pk == {all[i].n : i \in {j \in DOMAIN all : all[j].k = "pkg"}}
    IN Cardinality(nn) # Len(np) \/ nn \cap pk # {}
(* a definition is reported if another of its name came before it: in an earlier file, or in its own *)
(* file, where kinds of definitions have no order among them                                       *)
ClashAt(all, i, j) == /\ i # j /\ all[i].n = all[j].n /\ ~(all[i].k = "pkg" /\ all[j].k = "pkg")
                      /\ (i < j \/ (all[i].fn = all[j].fn /\ all[i].k # all[j].k))
(* the names that occur more than once *)
RECURSIVE TwiceFrom(_, _, _, _)
TwiceFrom(all, i, seen, twice) ==
    IF i > Len(all) THEN twice
    ELSE IF all[i].n \in seen THEN TwiceFrom(all, i + 1, seen, twice \cup {all[i].n})
    ELSE TwiceFrom(all, i + 1, seen \cup {all[i].n}, twice)
NameRules(old, new) ==
    LET before == AllNames(old)
        all == before \o AllNames(new)
    IN IF ~NamesClash(all) THEN <<>>
       ELSE LET tw == TwiceFrom(all, 1, {}, {})
                at == SelectSeq([i \in DOMAIN all |-> [r |-> all[i], new |-> i > Len(before)]], LAMBDA x : x.r.n \in tw)
                rs == [i \in DOMAIN at |-> at[i].r]
            IN Concat([j \in DOMAIN at |-> Breach(at[j].new /\ \E i \in DOMAIN rs : ClashAt(rs, i, j), "name", rs[j].fn, {rs[j].path})])
FormRules(f) ==
    LET ms == FileMsgs(f)  es == FileEnums(f)
        Flat(m) == [j \in DOMAIN m.fields |-> FlatName(NameOf(m.fields[j]))]
        Vals(e) == [i \in DOMAIN e.vals |-> EnumNum(e.vals[i])]
    IN Breach(f.syntax # <<>> /\ f.syntax[1] \notin {"proto2", "proto3"}, "syntax", FName(f), {<<12>>})
       \o Concat([i \in DOMAIN ms |-> Breach(ms[i].p3 /\ Repeats(Flat(ms[i].m)), "camel", FName(f), {ms[i].path \o <<2, j - 1, 1>> : j \in Repeated(Flat(ms[i].m))})])
       \o Concat([i \in DOMAIN es |-> Breach(es[i].e.vals = <<>>, "enum-empty", FName(f), {es[i].path})
                                     \o Breach(es[i].p3 /\ es[i].e.vals # <<>> /\ Vals(es[i].e)[1] # 0, "enum-zero", FName(f), {es[i].path \o <<2, 0, 2>>})])
StructRules(old, new) ==
    Nowhere(Repeats([i \in DOMAIN new |-> FName(new[i])]), "file-twice")
    \o NameRules(old, new)
    \o Concat([i \in DOMAIN new |-> FormRules(new[i])])

(* ---- second part: references and numbers, given the tables of old \o new ---- *)
IndexOK(f, s) == \A i \in DOMAIN s : Between(s[i], 0, Len(f.deps) - 1)
ImportRules(ft, f) ==
    Breach(SeqToSet(f.deps) \ DOMAIN ft # {}, "import", FName(f), {<<3, i - 1>> : i \in {k \in DOMAIN f.deps : f.deps[k] \notin DOMAIN ft}})
    \o Nowhere(~IndexOK(f, f.pub) \/ ~IndexOK(f, f.weak), "import-index")
EnumRules(r) ==
    LET nums == [i \in DOMAIN r.e.vals |-> EnumNum(r.e.vals[i])]
        In == {i \in DOMAIN nums : InClosed(nums[i], r.e.resr)}
        At(js) == {r.path \o <<2, j - 1, 2>> : j \in js}
    IN Breach(~r.e.alias /\ Repeats(nums), "enum-number", r.fn, At(Repeated(nums)))
       \o Breach(In # {}, "enum-reserved", r.fn, At(In))
(* fn, path: of the field *)
NumberRules(m, n, isExt, fn, path) ==
    Breach(~Between(n, 1, 536870911) \/ Between(n, 19000, 19999), "number", fn, {path \o <<3>>})
    \o Breach(InHalf(n, m.resr), "number-reserved", fn, {path \o <<3>>})
    \o Breach(IF isExt THEN ~InHalf(n, m.extr) ELSE InHalf(n, m.extr), "number-extension", fn, {path \o <<3>>})
MapBad(T, f) ==
    /\ f.kind = "message" /\ f.card = 3 /\ f.tn \in T.entries
    /\ LET g == T.mt[f.tn].f IN ~(1 \in DOMAIN g /\ 2 \in DOMAIN g) \/ g[1].card = 3 \/ g[2].card = 3 \/ g[1].kind \notin KeyKinds
TypeOf(T, f, fn, path) ==
    Breach(~f.tyok, "type", fn, {path \o <<6>>})
    \o Breach(f.tyok /\ ~f.ok, "default", fn, {path \o <<7>>})
    \o Breach(MapBad(T, f), "map-shape", fn, {path \o <<6>>})
FieldRules(T, r, f, d, path) ==
    NumberRules(r.m, f.num, FALSE, r.fn, path)
    \o TypeOf(T, f, r.fn, path)
    \o Nowhere(d.oneof # <<>> /\ ~Between(d.oneof[1], 0, Len(r.m.oneofs) - 1), "oneof-index")
MsgRules(T, r) ==
    LET fs == T.mt[r.full].idx
        nums == [j \in DOMAIN fs |-> fs[j].num]
        jsons == [j \in DOMAIN fs |-> fs[j].json]
        FieldPath(j) == r.path \o <<2, j - 1>>
    IN Breach(Repeats(nums), "number-twice", r.fn, {FieldPath(j) \o <<3>> : j \in Repeated(nums)})
       \o Breach(Repeats(jsons), "json-twice", r.fn, {FieldPath(j) \o <<k>> : j \in Repeated(jsons), k \in {1, 10}})
       \o Concat([j \in DOMAIN fs |-> FieldRules(T, r, fs[j], r.m.fields[j], FieldPath(j))])
MsgRec(T, n) == T.msgs[CHOOSE i \in DOMAIN T.msgs : T.msgs[i].full = n]
ExtRules(T, i) ==
    LET xi == T.xinfo[i]  x == T.exts[i] IN
    (IF xi.to = "" THEN Breach(TRUE, "extendee", x.fn, {x.path \o <<2>>}) ELSE NumberRules(MsgRec(T, xi.to).m, xi.f.num, TRUE, x.fn, x.path))
    \o TypeOf(T, xi.f, x.fn, x.path)
MethodType(T, s, m, ref) == Resolve(T.envs[s.fn], Append(s.segs, NameOf(m)), ref, {"msg"})
SvcRules(T, s) == Concat([j \in DOMAIN s.s.methods |->
    LET m == s.s.methods[j] IN
    Breach(MethodType(T, s, m, m.input) = "", "method-type", s.fn, {s.path \o <<2, j - 1, 2>>})
    \o Breach(MethodType(T, s, m, m.output) = "", "method-type", s.fn, {s.path \o <<2, j - 1, 3>>})])
TypeRules(T, new) ==
    LET names == {FName(new[i]) : i \in DOMAIN new}
        mi == SelectSeq(T.msgs, LAMBDA r : r.fn \in names)
        svcs == Concat([i \in DOMAIN new |-> FileSvcs(new[i])])
        ens == Concat([i \in DOMAIN new |-> FileEnums(new[i])])
    IN Concat([i \in DOMAIN new |-> ImportRules(T.ft, new[i])])
       \o Concat([i \in DOMAIN ens |-> EnumRules(ens[i])])
       \o Concat([i \in DOMAIN mi |-> MsgRules(T, mi[i])])
       \o Concat([i \in DOMAIN T.exts |-> IF T.exts[i].fn \in names THEN ExtRules(T, i) ELSE <<>>])
       \o Concat([i \in DOMAIN svcs |-> SvcRules(T, svcs[i])])

(* ---- the transition: adding a batch ---- *)
(* files whose name is already present are skipped *)
Fresh(old, batch) == SelectSeq(batch, LAMBDA f : \A i \in DOMAIN old : FName(old[i]) # FName(f))
(* rules = <<>> when accepted, otherwise the breaches; tables of the pool after the addition *)
AddBatch(old, batch) ==
    LET new == Fresh(old, batch)
        s == StructRules(old, new)
    IN IF new = <<>> THEN [rules |-> <<>>, files |-> old, same |-> TRUE, t |-> <<>>]
       ELSE IF s # <<>> THEN [rules |-> s, files |-> old, same |-> TRUE, t |-> <<>>]
       ELSE LET T == Tables(old \o new)
                r == TypeRules(T, new)
            IN IF r # <<>> THEN [rules |-> r, files |-> old, same |-> TRUE, t |-> <<>>]
               ELSE [rules |-> <<>>, files |-> old \o new, same |-> FALSE, t |-> T]

(* ---- the report of a refusal ---- *)
(* the source position recorded in a file for a path: the first location with it, if its span is whole *)
SpanOf(f, p) ==
    LET i == PositionOf(f.locs, LAMBDA l : l.p = p)
    IN IF i = 0 \/ Len(f.locs[i].s) \notin {3, 4} THEN <<>> ELSE SubSeq(f.locs[i].s, 1, 2)
(* e: [f, p, l]: the file, path and position reported, each empty if there is none *)
ReportFits(b, batch, e) ==
    IF b.at = {} THEN e.f = <<>> /\ e.p = <<>> /\ e.l = <<>>
    ELSE /\ e.f = <<b.fn>> /\ \E q \in b.at : e.p = <<q>>
         /\ \E i \in DOMAIN batch : FName(batch[i]) = b.fn /\ e.l = SpanOf(batch[i], e.p[1])

(* ---- what an accepted pool reports ---- *)
Fulls(recs) == [i \in DOMAIN recs |-> recs[i].full]
SyntaxOf(f) == IF IsProto3(f) THEN "proto3" ELSE "proto2"
FileFacts(f) == [n |-> FName(f), pkg |-> PkgOf(f), syn |-> SyntaxOf(f), deps |-> f.deps,
                 pub |-> [i \in DOMAIN f.pub |-> f.deps[f.pub[i] + 1]],
                 ms |-> [i \in DOMAIN f.msgs |-> Dot(PkgOf(f), NameOf(f.msgs[i]))],
                 es |-> [i \in DOMAIN f.enums |-> Dot(PkgOf(f), NameOf(f.enums[i]))],
                 xs |-> [i \in DOMAIN f.exts |-> Dot(PkgOf(f), NameOf(f.exts[i]))],
                 ss |-> [i \in DOMAIN f.svcs |-> Dot(PkgOf(f), NameOf(f.svcs[i]))]]
KindFact(f) == [k |-> f.kind, tn |-> f.tn, grp |-> f.group, card |-> f.card, list |-> f.list, map |-> f.map,
                pk |-> f.packed, pres |-> f.pres, d |-> f.dflt]
FieldFacts(r, f, j) == [n |-> f.name, full |-> f.full, num |-> f.num, json |-> f.json, path |-> r.path \o <<2, j - 1>>,
                        req |-> f.card = 2, of |-> IF f.oneof = 0 THEN "" ELSE Opt(r.m.oneofs[f.oneof], ""), k |-> KindFact(f)]
OneofFacts(r, fs, k) ==
    LET mine == {j \in DOMAIN fs : fs[j].oneof = k} IN
    [n |-> Opt(r.m.oneofs[k], ""), full |-> Dot(r.full, Opt(r.m.oneofs[k], "")), path |-> r.path \o <<8, k - 1>>,
     fs |-> {fs[j].num : j \in mine},
     syn |-> Cardinality(mine) = 1 /\ \A j \in mine : fs[j].p3opt]
MsgFacts(T, r) ==
    LET t == T.mt[r.full]  fs == t.idx
        mine == {i \in DOMAIN T.xinfo : T.xinfo[i].to = r.full}
    IN [n |-> NameOf(r.m), full |-> r.full, pkg |-> r.pkg, fn |-> r.fn, parent |-> r.parent, path |-> r.path,
        fs |-> {FieldFacts(r, fs[j], j) : j \in DOMAIN fs},
        os |-> [k \in DOMAIN r.m.oneofs |-> OneofFacts(r, fs, k)],
        cm |-> [i \in DOMAIN r.m.msgs |-> Dot(r.full, NameOf(r.m.msgs[i]))],
        ce |-> [i \in DOMAIN r.m.enums |-> Dot(r.full, NameOf(r.m.enums[i]))],
        cx |-> [i \in DOMAIN r.m.exts |-> Dot(r.full, NameOf(r.m.exts[i]))],
        xs |-> {T.xinfo[i].f.full : i \in mine},
        xn |-> IF Repeats([i \in DOMAIN T.xinfo |-> IF i \in mine THEN <<T.xinfo[i].f.num>> ELSE <<0, i>>]) THEN {}
               ELSE {<<T.xinfo[i].f.num, T.xinfo[i].f.full>> : i \in mine},
        entry |-> r.m.mapentry,
        rr |-> r.m.resr, rn |-> r.m.resn, er |-> r.m.extr,
        ln |-> {<<fs[j].num, fs[j].full>> : j \in DOMAIN fs},
        lm |-> {<<fs[j].name, fs[j].full>> : j \in DOMAIN fs},
        lj |-> {<<fs[j].json, fs[j].full>> : j \in DOMAIN fs},
        lx |-> {T.xinfo[i].f.full : i \in mine},
        lxj |-> {<<T.xinfo[i].f.json, T.xinfo[i].f.full>> : i \in mine}]
ExtFacts(T, i) ==
    LET x == T.exts[i]  f == T.xinfo[i].f IN
    [n |-> NameOf(x.x), full |-> x.full, pkg |-> x.pkg, fn |-> x.fn, parent |-> x.parent, path |-> x.path, num |-> f.num,
     json |-> f.json, to |-> T.xinfo[i].to, k |-> KindFact(f)]
EnumFacts(r) ==
    LET e == r.e  sc == JoinSegs(r.scope)
        V(v) == Dot(sc, NameOf(v))
    IN [n |-> NameOf(e), full |-> r.full, pkg |-> r.pkg, fn |-> r.fn, parent |-> r.parent, path |-> r.path,
        vs |-> {[n |-> NameOf(e.vals[i]), full |-> V(e.vals[i]), num |-> EnumNum(e.vals[i]), path |-> r.path \o <<2, i - 1>>] : i \in DOMAIN e.vals},
        d |-> V(e.vals[1]), rr |-> e.resr, rn |-> e.resn,
        lm |-> {<<NameOf(e.vals[i]), V(e.vals[i])>> : i \in DOMAIN e.vals}]
(* numbers found, each by one of the values declared with it *)
EnumLookupOK(r, ln) ==
    LET e == r.e  sc == JoinSegs(r.scope)
        all == {<<EnumNum(e.vals[i]), Dot(sc, NameOf(e.vals[i]))>> : i \in DOMAIN e.vals}
    IN ln \subseteq all /\ {x[1] : x \in ln} = {x[1] : x \in all} /\ Cardinality(ln) = Cardinality({x[1] : x \in all})
SvcFacts(T, s) ==
    [n |-> NameOf(s.s), full |-> s.full, pkg |-> s.pkg, fn |-> s.fn, path |-> s.path,
     ms |-> [j \in DOMAIN s.s.methods |->
        LET m == s.s.methods[j] IN
        [n |-> NameOf(m), full |-> Dot(s.full, NameOf(m)), path |-> s.path \o <<2, j - 1>>,
         i |-> MethodType(T, s, m, m.input), o |-> MethodType(T, s, m, m.output), cs |-> m.cs, ss |-> m.ss]]]
Lookups(T) == {<<n, T.tab[n].k>> : n \in {m \in DOMAIN T.tab : T.tab[m].k \in {"msg", "enum", "ext", "svc"}}}
(* everything the pool reports, independent of the order the files came in *)
EmptyFacts == [files |-> {}, msgs |-> {}, enums |-> {}, exts |-> {}, svcs |-> {}, look |-> {}, er |-> <<>>]
Facts(T) ==
    LET es == Concat([i \in DOMAIN T.files |-> FileEnums(T.files[i])])
        ss == Concat([i \in DOMAIN T.files |-> FileSvcs(T.files[i])])
    IN [files |-> {FileFacts(T.files[i]) : i \in DOMAIN T.files},
        msgs |-> {MsgFacts(T, T.msgs[i]) : i \in DOMAIN T.msgs},
        enums |-> {EnumFacts(es[i]) : i \in DOMAIN es},
        exts |-> {ExtFacts(T, i) : i \in DOMAIN T.exts},
        svcs |-> {SvcFacts(T, ss[i]) : i \in DOMAIN ss},
        look |-> Lookups(T),
        er |-> es]
=============================================================================
