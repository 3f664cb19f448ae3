-------------------------------- MODULE CommTrace --------------------------------
(* What processes claim to share with each other, and the verdict of the        *)
(* built-in consistency check on it.  nodes[r] are the positions of process r;  *)
(* neighbors[r] (0-based processes, ascending); shared[r][i] the indices of     *)
(* the nodes it claims to share with neighbors[r][i].                           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc
Init == c \in 1..Len(Trace) /\ pc = "claimed"
Next == pc = "claimed" /\ pc' = "judged" /\ UNCHANGED c
R == Trace[c]
Rng(s) == {s[i] : i \in DOMAIN s}
Ranks == 1..R.n
Knows(r, q) == q - 1 \in Rng(R.neighbors[r])
At(r, q) == CHOOSE i \in DOMAIN R.neighbors[r] : R.neighbors[r][i] = q - 1
Positions(r, q) == LET l == R.shared[r][At(r, q)] IN [i \in DOMAIN l |-> R.nodes[r][l[i] + 1]]
Common(r, q) == Rng(R.nodes[r]) \cap Rng(R.nodes[q])
Consistent == \A r, q \in Ranks : r # q =>
  /\ Knows(r, q) = Knows(q, r)
  /\ Knows(r, q) = (Common(r, q) # {})
  /\ Knows(r, q) => /\ Positions(r, q) = Positions(q, r)
                    /\ Rng(Positions(r, q)) = Common(r, q)
                    /\ Len(Positions(r, q)) = Cardinality(Common(r, q))
InvVerdict == pc = "judged" => \A r \in Ranks : R.ok[r] = Consistent
InvSame == pc = "judged" => \A r \in Ranks : R.verdicts[r] = R.verdicts[1]
==================================================================================
