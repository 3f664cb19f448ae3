-------------------------------- MODULE Session --------------------------------
(* A process that serves tessellation requests one after another, with a      *)
(* number of tessellator objects, each with a mesh object that is cleared and  *)
(* reused.  A mesh holds the tessellation of the request that was served last  *)
(* into it and nothing of what was served before, by whatever tessellator.     *)
(* TLC enumerates the histories; HistoryTrace replays them on the library.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Slots, MaxLen
VARIABLES held, hist
Nothing == 0
Init == held = [s \in 1..Slots |-> Nothing] /\ hist = <<>>
Serve(s, k) == /\ Len(hist) < MaxLen
               /\ held' = [held EXCEPT ![s] = k]
               /\ hist' = Append(hist, <<s, k>>)
Next == \E s \in 1..Slots, k \in 1..Kinds : Serve(s, k)
\* What a slot holds is decided by its last request alone.
LastOf(s) == LET I == {i \in DOMAIN hist : hist[i][1] = s} IN
             IF I = {} THEN Nothing ELSE hist[CHOOSE i \in I : \A j \in I : j <= i][2]
HeldIsLast == \A s \in 1..Slots : held[s] = LastOf(s)
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
================================================================================
