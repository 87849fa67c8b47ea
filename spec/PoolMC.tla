-------------------------------- MODULE PoolMC --------------------------------
(* Closed model: one descriptor pool under every history of additions of small *)
(* batches from a fixed universe of files, explored completely.  The laws of    *)
(* additions are invariants; every reachable pool is printed with a shortest    *)
(* history that gives it, to be replayed on the real code.                      *)
EXTENDS Pool, IOUtils, Json

CONSTANT Triples    (* batches of three files too *)
Universe == ndJsonDeserialize(IOEnv.VDIR \o "/schemas.ndjson")[1].files
U == DOMAIN Universe
Batches == {<<i>> : i \in U} \cup {<<i, j>> : i, j \in U} \cup (IF Triples THEN {<<i, j, k>> : i, j, k \in U} ELSE {})
ASSUME PrintT("MENU " \o ToJson(Batches))
Files(s) == [i \in DOMAIN s |-> Universe[s[i]]]

VARIABLES accepted, trail
vars == <<accepted, trail>>

(* the outcome of a batch: the indices of the files then in the pool *)
Outcome(s, b) == LET r == AddBatch(Files(s), Files(b))
                     fresh == SelectSeq(b, LAMBDA i : \A k \in DOMAIN s : FName(Universe[s[k]]) # FName(Universe[i]))
                 IN [ok |-> r.rules = <<>>, to |-> IF r.rules = <<>> THEN s \o fresh ELSE s, n |-> Len(r.files)]
(* the order in which files came is not part of what can be seen *)
FactsOf(s) == Facts(Tables(Files(s)))
Init == accepted = <<>> /\ trail = <<>>
Next == \E b \in Batches : /\ Outcome(accepted, b).to # accepted
                           /\ accepted' = Outcome(accepted, b).to
                           /\ trail' = Append(trail, b)
Spec == Init /\ [][Next]_vars
View == accepted
Show == PrintT("HIST " \o ToJson(trail))

RECURSIVE Ordered(_)
Ordered(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o Ordered(s \ {x})
Sorted == Ordered(SeqToSet(accepted))
Mine == FactsOf(accepted)

(* ---- the laws ---- *)
(* names are unique, and everything a file needs is there *)
Unique == ~NamesClash(AllNames(Files(accepted))) /\ Cardinality({FName(Universe[accepted[i]]) : i \in DOMAIN accepted}) = Len(accepted)
Closed == \A i \in DOMAIN accepted : \A k \in DOMAIN Universe[accepted[i]].deps : \E j \in DOMAIN accepted : FName(Universe[accepted[j]]) = Universe[accepted[i]].deps[k]
(* D02: the facts do not depend on the order *)
OrderFree == Mine = FactsOf(Sorted)
(* D02: what can be added one by one can be added at once, in any order, with the same result *)
Grouping == \A a \in U, b \in U :
    LET x == Outcome(accepted, <<a>>)  y == Outcome(x.to, <<b>>)  both == Outcome(accepted, <<a, b>>)  swap == Outcome(accepted, <<b, a>>)
        same == a = b \/ FName(Universe[a]) = FName(Universe[b])
    IN same \/ (/\ (x.ok /\ y.ok => both.ok /\ both.to = y.to)
                /\ both.ok = swap.ok /\ SeqToSet(both.to) = SeqToSet(swap.to)
                /\ (both.ok /\ x.ok => y.ok))
(* adding again changes nothing *)
Again == \A i \in DOMAIN accepted : LET r == Outcome(accepted, <<accepted[i]>>) IN r.ok /\ r.to = accepted
(* D01: an addition is all or nothing *)
AllOrNothing == \A b \in Batches : LET r == Outcome(accepted, b) IN r.n = Len(r.to) /\ (IF r.ok THEN \A i \in DOMAIN b : \E k \in DOMAIN r.to : FName(Universe[r.to[k]]) = FName(Universe[b[i]]) ELSE r.to = accepted)
(* D03: what was there reports the same afterwards, but for extensions *)
Own(ms) == {[m EXCEPT !.xs = {}, !.xn = {}, !.lx = {}, !.lxj = {}] : m \in ms}
Grows == [][LET f == FactsOf(accepted)  g == FactsOf(accepted')
            IN f.files \subseteq g.files /\ f.enums \subseteq g.enums /\ f.exts \subseteq g.exts /\ f.svcs \subseteq g.svcs
               /\ f.look \subseteq g.look /\ Own(f.msgs) \subseteq Own(g.msgs)
               /\ \A m \in f.msgs : \E n \in g.msgs : n.full = m.full /\ m.xs \subseteq n.xs]_vars
=============================================================================
