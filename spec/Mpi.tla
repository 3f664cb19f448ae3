---------------------------------- MODULE Mpi ----------------------------------
(* The part of MPI that polytope uses, as a transition system: each process    *)
(* runs a fixed sequence of operations.                                        *)
(*   isend  start a send (request r);   wait  complete the send r              *)
(*   send   a blocking send;            recv  a blocking receive               *)
(*   irecv  post a receive (request r); recv with that r completes it          *)
(*   bcast, allreduce, barrier  collectives                                    *)
(* Fields: k kind, p peer (root of a bcast), t tag, n bytes, c capacity,       *)
(* h content, r request.  There are no wildcard receives.                      *)
(* Under `rendezvous` a message is not buffered: its sender can only complete  *)
(* when the receiver has taken it or stands ready to take it.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pc,      \* pc[i]: the next operation of process i
          net      \* net[i][j]: messages from i to j not yet received, oldest first
vars == <<pc, net>>

Collective == {"bcast", "allreduce", "barrier"}
Procs(P) == 1..Len(P)
MpiInit(P) == /\ pc = [i \in Procs(P) |-> 1]
              /\ net = [i \in Procs(P) |-> [j \in Procs(P) |-> <<>>]]
At(P, i) == P[i][pc[i]]
Ended(P, i) == pc[i] > Len(P[i])
AllEnded(P) == \A i \in Procs(P) : Ended(P, i)

\* Position of the message a receive takes: the oldest with its tag (0: none).
Take(s, tag) == IF \E m \in DOMAIN s : s[m].t = tag
                THEN CHOOSE m \in DOMAIN s : s[m].t = tag /\ \A l \in 1..(m - 1) : s[l].t # tag
                ELSE 0
Without(s, m) == SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s))
IsProc(P, p) == p + 1 \in Procs(P)
InFlight(i, j, at) == \E m \in DOMAIN net[i][j] : net[i][j][m].at = at
\* Receives from i with this tag that j has posted but not completed.
Posted(P, j, i, tag) ==
  {a \in 1..(pc[j] - 1) : P[j][a].k = "irecv" /\ P[j][a].p = i - 1 /\ P[j][a].t = tag
     /\ \E b \in pc[j]..Len(P[j]) : P[j][b].k = "recv" /\ P[j][b].r = P[j][a].r}
\* Rendezvous: message `at` of i is taken, or among those j has a receive posted for.
Taken(P, i, at) ==
  LET e == P[i][at] j == e.p + 1 IN
  \/ ~InFlight(i, j, at)
  \/ LET s == net[i][j]
         before == {m \in DOMAIN s : s[m].t = e.t /\ s[m].at <= at}
     IN Cardinality(before) <= Cardinality(Posted(P, j, i, e.t))
Starts(P, i, r) == {a \in 1..Len(P[i]) : P[i][a].k = "isend" /\ P[i][a].r = r}

CanStep(P, rendezvous, i) ==
  /\ ~Ended(P, i)
  /\ LET e == At(P, i) IN
     CASE e.k \in {"isend", "irecv"} -> TRUE
       [] e.k = "send"  -> (rendezvous /\ IsProc(P, e.p) /\ InFlight(i, e.p + 1, pc[i])) => Taken(P, i, pc[i])
       [] e.k = "wait"  -> rendezvous => \A a \in Starts(P, i, e.r) : Taken(P, i, a)
       [] e.k = "recv"  -> IsProc(P, e.p) /\ Take(net[e.p + 1][i], e.t) # 0
       [] e.k \in Collective -> \A j \in Procs(P) : /\ ~Ended(P, j)
                                                     /\ At(P, j).k = e.k /\ At(P, j).p = e.p
       [] OTHER -> FALSE

Post(P, i) == LET e == At(P, i) IN
  net' = [net EXCEPT ![i][e.p + 1] = Append(@, [t |-> e.t, n |-> e.n, h |-> e.h, at |-> pc[i]])]

Step(P, rendezvous, i) ==
  /\ CanStep(P, rendezvous, i)
  /\ LET e == At(P, i) IN
     CASE e.k = "isend" -> Post(P, i) /\ pc' = [pc EXCEPT ![i] = @ + 1]
       [] e.k = "send"  -> IF InFlight(i, e.p + 1, pc[i])
                           THEN UNCHANGED net /\ pc' = [pc EXCEPT ![i] = @ + 1]
                           ELSE Post(P, i) /\ (IF rendezvous THEN UNCHANGED pc ELSE pc' = [pc EXCEPT ![i] = @ + 1])
       [] e.k = "recv"  -> LET s == net[e.p + 1][i] m == Take(s, e.t) IN
                           /\ net' = [net EXCEPT ![e.p + 1][i] = Without(@, m)]
                           /\ pc' = [pc EXCEPT ![i] = @ + 1]
       [] e.k \in Collective -> pc' = [j \in Procs(P) |-> pc[j] + 1] /\ UNCHANGED net
       [] OTHER -> pc' = [pc EXCEPT ![i] = @ + 1] /\ UNCHANGED net

MpiNext(P, rendezvous) == \E i \in Procs(P) : Step(P, rendezvous, i)
\* One schedule suffices where receives name their sender and tag (Exchange explores all).
MpiFirst(P, rendezvous) == LET S == {i \in Procs(P) : CanStep(P, rendezvous, i)} IN
  /\ S # {}
  /\ Step(P, rendezvous, CHOOSE i \in S : \A j \in S : i <= j)

(* ---- what must hold ------------------------------------------------------- *)
NeverStuck(P, rendezvous) == AllEnded(P) \/ \E i \in Procs(P) : CanStep(P, rendezvous, i)
\* A receive that can proceed gets what was sent, and has room for it.
Matches(P) == \A i \in Procs(P) :
  (~Ended(P, i) /\ At(P, i).k = "recv" /\ IsProc(P, At(P, i).p)) =>
    LET e == At(P, i) s == net[e.p + 1][i] m == Take(s, e.t) IN
    m # 0 => s[m].n = e.n /\ s[m].h = e.h /\ e.n <= e.c
\* All processes in a collective pass the same amount and leave with the same content.
Agree(P) == \A i, j \in Procs(P) :
  (/\ \A l \in Procs(P) : ~Ended(P, l) /\ At(P, l).k \in Collective)
  => /\ At(P, i).k = At(P, j).k /\ At(P, i).p = At(P, j).p
     /\ At(P, i).n = At(P, j).n /\ At(P, i).h = At(P, j).h
NothingLeft(P) == AllEnded(P) => \A i, j \in Procs(P) : net[i][j] = <<>>
Completed(P) == \A i \in Procs(P) :
  /\ \A a \in DOMAIN P[i] : P[i][a].k = "isend" => Cardinality({b \in DOMAIN P[i] : P[i][b].k = "wait" /\ P[i][b].r = P[i][a].r}) = 1
  /\ \A a \in DOMAIN P[i] : P[i][a].k = "irecv" => Cardinality({b \in DOMAIN P[i] : P[i][b].k = "recv" /\ P[i][b].r = P[i][a].r}) = 1
================================================================================
