---------------------------------- MODULE Silo ----------------------------------
(* Poor man's parallel output: P processes write their meshes as domains of      *)
(* F <= P files and process 0 writes a master file that refers to every domain.  *)
(* Processes of one group (one file) take turns with a baton: the first creates  *)
(* the file, the others add to it.  Time stops when everyone has finished.       *)
EXTENDS Integers, Sequences, FiniteSets

\* Groups are contiguous ranges of processes; the first P % F have one more.
GroupSize(P, F, g) == P \div F + (IF g < P % F THEN 1 ELSE 0)
RECURSIVE GroupFirst(_, _, _)
GroupFirst(P, F, g) == IF g = 0 THEN 0 ELSE GroupFirst(P, F, g - 1) + GroupSize(P, F, g - 1)
Members(P, F, g) == GroupFirst(P, F, g)..(GroupFirst(P, F, g) + GroupSize(P, F, g) - 1)
GroupOf(P, F, p) == CHOOSE g \in 0..(F - 1) : p \in Members(P, F, g)
RankIn(P, F, p) == p - GroupFirst(P, F, GroupOf(P, F, p))

\* A group's file: absent, or the domains in it and who has it open.
NoFile == [there |-> FALSE, doms |-> {}, open |-> {}]
Create(f, p) == [there |-> TRUE, doms |-> {}, open |-> f.open \cup {p}]
Join(f, p) == [f EXCEPT !.open = @ \cup {p}]
Put(f, p, d) == [f EXCEPT !.doms = @ \cup {d}]
Close(f, p) == [f EXCEPT !.open = @ \ {p}]
=================================================================================
