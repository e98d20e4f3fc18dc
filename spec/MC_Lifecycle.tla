---------------------------- MODULE MC_Lifecycle ----------------------------
(***************************************************************************)
(* Lifecycle, refined by arrays.  Each model owns an array (its physical   *)
(* state), its `states` refers to an array, and a snapshot is a shallow    *)
(* copy: it refers to the same array as the `states` it was taken from.    *)
(* A step either overwrites the model's array or makes a new one.  Saving  *)
(* and loading copy.  The arrays always hold what Lifecycle says; without  *)
(* either copy they would not (CopyOnSave, CopyOnLoad = FALSE).            *)
(***************************************************************************)
EXTENDS Lifecycle, FiniteSets
CONSTANTS MaxOps, NModels, Tabs, Inputs, Spins, MaxSnaps, CopyOnSave, CopyOnLoad

VARIABLES st, heap, cur, saved, snap, log, ops
vars == <<st, heap, cur, saved, snap, log, ops>>

Dt(u) == F(2 * u + 1)
Alloc(h, v) == Append(h, v)
\* the constructor: an array with the raw state, saved, then overwritten by the first step
Build(tab) ==
   /\ Len(st.models) < NModels
   /\ st' = Apply(st, [op |-> "build", m |-> Len(st.models) + 1, tab |-> tab])
   /\ heap' = heap \o << <<tab, Raw, Init0>>, <<tab, Raw>> >>
   /\ cur' = Append(cur, Len(heap) + 1) /\ saved' = Append(saved, Len(heap) + 2) /\ snap' = snap
   /\ log' = Append(log, [op |-> "build", m |-> Len(st.models) + 1, tab |-> tab])
\* save: the array that `states` refers to, and the heap
SaveHeap(h, m) == IF CopyOnSave THEN Alloc(h, h[cur[m]]) ELSE h
SaveRef(h, m) == IF CopyOnSave THEN Len(h) + 1 ELSE cur[m]
Advance(h, m, ids, inplace) == IF inplace THEN [h EXCEPT ![cur[m]] = @ \o ids] ELSE Alloc(h, h[cur[m]] \o ids)
AdvRef(h, m, inplace) == IF inplace THEN cur[m] ELSE Len(h) + 1
Step(m, u, inplace) ==
   /\ st' = Apply(st, [op |-> "step", m |-> m, u |-> u, dt |-> Dt(u)])
   /\ LET h == SaveHeap(heap, m) IN
      /\ saved' = [saved EXCEPT ![m] = SaveRef(heap, m)]
      /\ heap' = Advance(h, m, <<u>>, inplace) /\ cur' = [cur EXCEPT ![m] = AdvRef(h, m, inplace)]
   /\ snap' = snap /\ log' = Append(log, [op |-> "step", m |-> m, u |-> u])
Spin(m, q, u, reset, inplace) ==
   /\ st' = Apply(st, [op |-> "spin", m |-> m, u |-> u, dt |-> Dt(u), q |-> q, reset |-> reset])
   \* the last of its steps saves the state before it
   /\ LET h1 == [heap EXCEPT ![cur[m]] = @ \o [i \in 1..q - 1 |-> u]]
          h2 == IF CopyOnSave THEN Alloc(h1, h1[cur[m]]) ELSE h1 IN
      /\ saved' = [saved EXCEPT ![m] = IF CopyOnSave THEN Len(h1) + 1 ELSE cur[m]]
      /\ heap' = Advance(h2, m, <<u>>, inplace) /\ cur' = [cur EXCEPT ![m] = AdvRef(h2, m, inplace)]
   /\ snap' = snap /\ log' = Append(log, [op |-> "spin", m |-> m, u |-> u, q |-> q, reset |-> reset])
Save(m) == /\ st' = Apply(st, [op |-> "save", m |-> m])
           /\ saved' = [saved EXCEPT ![m] = SaveRef(heap, m)] /\ heap' = SaveHeap(heap, m)
           /\ UNCHANGED <<cur, snap>> /\ log' = Append(log, [op |-> "save", m |-> m])
Snap(m) == /\ Len(snap) < MaxSnaps
           /\ st' = Apply(st, [op |-> "snap", m |-> m])
           /\ snap' = Append(snap, saved[m]) /\ UNCHANGED <<heap, cur, saved>> /\ log' = Append(log, [op |-> "snap", m |-> m])
LoadRef(m, ref) == IF CopyOnLoad THEN heap' = Alloc(heap, heap[ref]) /\ cur' = [cur EXCEPT ![m] = Len(heap) + 1]
                   ELSE heap' = heap /\ cur' = [cur EXCEPT ![m] = ref]
Own(m) == /\ st' = Apply(st, [op |-> "own", m |-> m]) /\ LoadRef(m, saved[m])
          /\ UNCHANGED <<saved, snap>> /\ log' = Append(log, [op |-> "own", m |-> m])
Load(m, s, op) ==
             /\ st.snaps[s].tab = st.models[m].tab
             /\ st' = Apply(st, [op |-> op, m |-> m, s |-> s]) /\ LoadRef(m, snap[s])
             /\ UNCHANGED <<saved, snap>> /\ log' = Append(log, [op |-> op, m |-> m, s |-> s])
MoveJ(m) == /\ st' = Apply(st, [op |-> "move", m |-> m])
            /\ heap' = [heap EXCEPT ![cur[m]] = Append(@, Move)]
            /\ UNCHANGED <<cur, saved, snap>> /\ log' = Append(log, [op |-> "move", m |-> m])

Init == st = Machine0 /\ heap = <<>> /\ cur = <<>> /\ saved = <<>> /\ snap = <<>> /\ log = <<>> /\ ops = 0
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E tab \in Tabs : Build(tab)
           \/ \E m \in 1..Len(st.models) :
                \/ \E u \in Inputs, ip \in BOOLEAN : Step(m, u, ip)
                \/ \E q \in Spins, r, ip \in BOOLEAN : Spin(m, q, 3, r, ip)
                \/ Save(m) \/ Snap(m) \/ Own(m) \/ MoveJ(m)
                \/ \E s \in 1..Len(snap) : Load(m, s, "load") \/ Load(m, s, "loadx")
Spec == Init /\ [][Next]_vars

Holds(tab, path) == <<tab>> \o path
\* the arrays hold the physical states of Lifecycle
InvModels == \A m \in 1..Len(st.models) : heap[cur[m]] = Holds(st.models[m].tab, st.models[m].path)
InvSaved == \A m \in 1..Len(st.models) : heap[saved[m]] = Holds(st.models[m].tab, st.models[m].sv.path)
InvSnaps == \A s \in 1..Len(snap) : heap[snap[s]] = Holds(st.snaps[s].tab, st.snaps[s].path)
\* no two models share an array, nor does a model share one with what is saved
InvOwn == \A m \in 1..Len(st.models) : /\ \A k \in 1..Len(st.models) : cur[m] # saved[k] /\ (k # m => cur[m] # cur[k])
                                       /\ \A s \in 1..Len(snap) : cur[m] # snap[s]
\* without loads and spin-ups, time is the sum of the steps and the count their number
RECURSIVE Sum(_)
Sum(p) == IF p = <<>> THEN F(0) ELSE (IF Head(p) > 0 THEN Dt(Head(p)) ELSE F(0)) \oplus Sum(Tail(p))
Plain(m) == \A i \in 1..Len(log) : log[i].m = m => log[i].op \in {"build", "step", "save", "snap", "own", "load", "move"}
AllPlain == \A m \in 1..Len(st.models) : Plain(m)
InvTime == AllPlain => \A m \in 1..Len(st.models) : FEq(st.models[m].t, Sum(st.models[m].path))
InvCount == \A m \in 1..Len(st.models) : Plain(m) => st.models[m].n = Cardinality({i \in 1..Len(log) : log[i].m = m /\ log[i].op = "step"})
\* restoring and repeating the same inputs leads to the same state
InvReplay == \A m \in 1..Len(st.models), s \in 1..Len(st.snaps), u, v \in Inputs :
   st.snaps[s].tab = st.models[m].tab =>
   LET go(x) == Stepped(Stepped(Loaded(x, st.snaps[s]), u, Dt(u)), v, Dt(v)) IN
   /\ go(st.models[m]).path = st.snaps[s].path \o <<u, v>>
   /\ \A k \in 1..Len(st.models) : st.models[k].tab = st.models[m].tab => go(st.models[m]).path = go(st.models[k]).path /\ go(st.models[m]).t = go(st.models[k]).t
Gen == (FEnv("GEN") = "1" /\ ops = MaxOps) => PrintT("GEN " \o FJson(log))
\* the order of operations is explored, not remembered, except as far as the invariants need it
=============================================================================
