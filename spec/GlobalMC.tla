------------------------------ MODULE GlobalMC ------------------------------
(* How the global pool and its copies are shared between threads, in closed  *)
(* form: a lock around the global pool, copies that share storage until one  *)
(* of the sharers is added to, additions that take effect file by file and   *)
(* are taken back when a later file of the batch is refused.  The laws say   *)
(* that none of this can be seen: every addition happens as a whole, at one  *)
(* moment, and no copy ever changes but through its own additions.  This is  *)
(* the atomic behaviour GlobalTrace demands of the recorded executions.      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, MaxOps
(* files 1 and 2 are independent, 3 imports 1, 4 defines a name of 2 again *)
Batches == {<<1>>, <<2>>, <<1, 3>>, <<3>>, <<2, 4>>, <<1, 2>>, <<4, 3>>}
Accepts(fs, f) == CASE f = 3 -> \E i \in DOMAIN fs : fs[i] = 1
                    [] f = 4 -> \A i \in DOMAIN fs : fs[i] # 2
                    [] f = 2 -> \A i \in DOMAIN fs : fs[i] # 4
                    [] OTHER -> TRUE
Has(fs, f) == \E i \in DOMAIN fs : fs[i] = f
(* an addition seen as one step: the whole batch or nothing *)
RECURSIVE AddFrom(_, _, _)
AddFrom(start, fs, b) == IF b = <<>> THEN fs
                         ELSE IF Has(fs, Head(b)) THEN AddFrom(start, fs, Tail(b))
                         ELSE IF Accepts(fs, Head(b)) THEN AddFrom(start, Append(fs, Head(b)), Tail(b)) ELSE start
Add(fs, b) == AddFrom(fs, fs, b)

(* cell: the storage; where: the storage of the global pool (0) and of every  *)
(* thread's copy; lock: the thread inside; act: what a thread is doing;       *)
(* left: how many operations a thread may still start                         *)
Holders == {0} \cup Threads
Cells == 0..(Cardinality(Threads) + 1)
NoCell == 99
Nothing == [do |-> "idle", on |-> 0, cellid |-> 0, rest |-> <<>>, start |-> <<>>]
VARIABLES cell, where, lock, act, left
gvars == <<cell, where, lock, act, left>>

GInit == /\ cell = [i \in Cells |-> <<>>]
         /\ where = [x \in Holders |-> IF x = 0 THEN 0 ELSE NoCell]
         /\ lock = 0 /\ act = [t \in Threads |-> Nothing] /\ left = [t \in Threads |-> MaxOps]

Idle(t) == act[t].do = "idle" /\ left[t] > 0
Started(t) == left' = [left EXCEPT ![t] = @ - 1]
Sharers(c) == {x \in Holders : where[x] = c}
FreeCell == CHOOSE c \in Cells : Sharers(c) = {}

(* a copy of the global pool: taken under the lock, shares its storage *)
Copy(t) == /\ Idle(t) /\ lock = 0 /\ Started(t)
           /\ where' = [where EXCEPT ![t] = where[0]]
           /\ UNCHANGED <<cell, lock, act>>
(* an addition begins: to the global pool (x = 0) under the lock, or to the thread's own copy *)
Begin(t, x, b) ==
    /\ Idle(t) /\ Started(t) /\ where[x] # NoCell
    /\ (IF x = 0 THEN lock = 0 /\ lock' = t ELSE lock' = lock)
    /\ act' = [act EXCEPT ![t] = [do |-> "own", on |-> x, cellid |-> where[x], rest |-> b, start |-> cell[where[x]]]]
    /\ UNCHANGED <<cell, where>>
(* storage that is shared is left to the others before the first change *)
Own(t) ==
    /\ act[t].do = "own"
    /\ LET x == act[t].on IN
       IF Sharers(where[x]) = {x}
       THEN act' = [act EXCEPT ![t].do = "add"] /\ UNCHANGED <<cell, where>>
       ELSE LET c == FreeCell IN
            /\ cell' = [cell EXCEPT ![c] = cell[where[x]]]
            /\ where' = [where EXCEPT ![x] = c]
            /\ act' = [act EXCEPT ![t].do = "add", ![t].cellid = c]
    /\ UNCHANGED <<lock, left>>
(* one file; the last one ends the addition; a refused one takes everything back *)
Done(t, fs) == /\ cell' = [cell EXCEPT ![act[t].cellid] = fs]
               /\ act' = [act EXCEPT ![t] = Nothing]
               /\ lock' = IF act[t].on = 0 THEN 0 ELSE lock
File(t) ==
    /\ act[t].do = "add" /\ UNCHANGED <<where, left>>
    /\ LET c == act[t].cellid  b == act[t].rest IN
       IF b = <<>> THEN Done(t, cell[c])
       ELSE IF Has(cell[c], Head(b)) THEN act' = [act EXCEPT ![t].rest = Tail(b)] /\ UNCHANGED <<cell, lock>>
       ELSE IF Accepts(cell[c], Head(b))
       THEN /\ cell' = [cell EXCEPT ![c] = Append(@, Head(b))]
            /\ act' = [act EXCEPT ![t].rest = Tail(b)] /\ UNCHANGED lock
       ELSE Done(t, act[t].start)

GNext == \E t \in Threads : \/ Copy(t) \/ Own(t) \/ File(t)
                            \/ \E b \in Batches : Begin(t, 0, b) \/ Begin(t, t, b)
GSpec == GInit /\ [][GNext]_gvars

(* ---- what can be seen ---- *)
(* the content of a pool to everybody but the thread that is adding to it *)
Adder(x) == {t \in Threads : act[t].do # "idle" /\ act[t].on = x}
Seen(x) == IF where[x] = NoCell THEN <<>>
           ELSE IF Adder(x) # {} THEN act[CHOOSE t \in Adder(x) : TRUE].start
           ELSE cell[where[x]]
OneAdder == \A x \in Holders : Cardinality(Adder(x)) <= 1
Locked == (lock # 0) <=> (Adder(0) # {})
(* storage under change belongs to one pool *)
Alone == \A t \in Threads : act[t].do = "add" => Sharers(act[t].cellid) = {act[t].on}
(* a pool changes only by whole additions, or (a thread's own) by taking a new copy *)
AsWhole == [][\A x \in Holders :
               \/ Seen(x)' = Seen(x)
               \/ (Adder(x) # {} /\ \E b \in Batches : Seen(x)' = Add(Seen(x), b))
               \/ (x # 0 /\ Seen(x)' = Seen(0))]_gvars
(* nothing a thread does reaches the copies of the others *)
Apart == [][\A t \in Threads : (where'[t] = where[t] /\ act[t].do = "idle" /\ act'[t].do = "idle" /\ where[t] # NoCell)
               => cell'[where[t]] = cell[where[t]]]_gvars
(* every addition that began is over in the end *)
Fair == GSpec /\ \A t \in Threads : WF_gvars(Own(t)) /\ WF_gvars(File(t))
Finishes == \A t \in Threads : []<>(act[t].do = "idle")
=============================================================================
