------------------------------- MODULE SiloModel -------------------------------
(* The protocol, for every number of processes, number of files and schedule.   *)
(* Two writes follow one another (the second replaces the files of the first)   *)
(* so that what a write leaves behind is part of the state.                     *)
(* Recreate and EvenGroups are the two mistakes this protocol can make: a later *)
(* process making the file anew, and a master that takes groups to be equal.    *)
EXTENDS Silo, TLC
CONSTANTS MaxP, Writes, Recreate, EvenGroups
VARIABLES P, F, round, pc, file, master
vars == <<P, F, round, pc, file, master>>

Procs == 0..(P - 1)
Init == /\ P \in 1..MaxP /\ F \in 1..P
        /\ round = 1
        /\ pc = [p \in 0..(P - 1) |-> "wait"]
        /\ file = [g \in 0..(F - 1) |-> NoFile]
        /\ master = {}

G(p) == GroupOf(P, F, p)
Turn(p) == IF RankIn(P, F, p) = 0 THEN TRUE ELSE pc[p - 1] \in {"handed", "done"}
Take(p) == /\ pc[p] = "wait" /\ Turn(p)
           /\ pc' = [pc EXCEPT ![p] = "open"]
           /\ file' = [file EXCEPT ![G(p)] = IF RankIn(P, F, p) = 0 \/ Recreate THEN Create(@, p) ELSE Join(@, p)]
           /\ UNCHANGED <<P, F, round, master>>
Store(p) == /\ pc[p] = "open"
            /\ pc' = [pc EXCEPT ![p] = "stored"]
            /\ file' = [file EXCEPT ![G(p)] = Put(@, p, <<round, p>>)]
            /\ UNCHANGED <<P, F, round, master>>
Hand(p) == /\ pc[p] = "stored"
           /\ pc' = [pc EXCEPT ![p] = "handed"]
           /\ file' = [file EXCEPT ![G(p)] = Close(@, p)]
           /\ UNCHANGED <<P, F, round, master>>
Chunks(g) == IF EvenGroups THEN P \div F ELSE GroupSize(P, F, g)
Finish(p) == /\ pc[p] = "handed"
             /\ pc' = [pc EXCEPT ![p] = "done"]
             /\ master' = IF p = 0 THEN UNION {{<<g, k>> : k \in 0..(Chunks(g) - 1)} : g \in 0..(F - 1)} ELSE master
             /\ UNCHANGED <<P, F, round, file>>
AllDone == \A p \in Procs : pc[p] = "done"
Again == /\ AllDone /\ round < Writes
         /\ round' = round + 1
         /\ pc' = [p \in Procs |-> "wait"]
         /\ UNCHANGED <<P, F, file, master>>
Next == (\E p \in Procs : Take(p) \/ Store(p) \/ Hand(p) \/ Finish(p)) \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* One process at a time has a file open.
Exclusive == \A g \in 0..(F - 1) : Cardinality(file[g].open) <= 1
\* In the end every process's domain is in its group's file, and nothing older is;
Complete == AllDone => \A g \in 0..(F - 1) : file[g].doms = {<<round, p>> : p \in Members(P, F, g)}
\* the master refers to every process's domain and to nothing else.
MasterExact == AllDone => master = {<<G(p), RankIn(P, F, p)>> : p \in Procs}
Cover == /\ UNION {Members(P, F, g) : g \in 0..(F - 1)} = Procs
         /\ \A p \in Procs : Cardinality({g \in 0..(F - 1) : p \in Members(P, F, g)}) = 1
Ends == <>(AllDone /\ round = Writes)
================================================================================
