-------------------------------- MODULE MpiTrace --------------------------------
(* The operations each process was seen to perform, replayed through Mpi under *)
(* both kinds of network: the run must be one that completes on each of them.  *)
EXTENDS Mpi, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, rendezvous
P == Trace[c].logs
Init == /\ c \in 1..Len(Trace) /\ rendezvous \in BOOLEAN
        /\ MpiInit(P)
Next == MpiFirst(P, rendezvous) /\ UNCHANGED <<c, rendezvous>>
InvCompletes == NeverStuck(P, rendezvous)
InvDelivered == Matches(P)
InvCollectives == Agree(P)
InvNothingLeft == NothingLeft(P)
First == \A i \in Procs(P) : pc[i] = 1
InvRequests == First => Completed(P)
\* What a send was given stays unchanged until the send is complete.
InvBuffers == First => \A i \in Procs(P) : \A a \in DOMAIN P[i] : P[i][a].s
InvKnown == First => \A i \in Procs(P) : \A a \in DOMAIN P[i] : P[i][a].k # "stray" /\ (P[i][a].k \in {"send", "recv", "isend", "irecv"} => IsProc(P, P[i][a].p) /\ P[i][a].p # i - 1)
\* Every run of the same request, whatever its timing, gives each process the same result.
InvSame == First => \A i \in DOMAIN Trace[c].results : Trace[c].results[i] = Trace[c].results[1]
InvOutside == First => Trace[c].left = 0 /\ Trace[c].unfinished = 0
================================================================================
