-------------------------------- MODULE Exchange --------------------------------
(* Design of the distributed tessellation's communication, for every neighbour *)
(* graph and every pattern of node ownership on N processes:                   *)
(*   1  every process broadcasts its visible points (size, then content);      *)
(*   2  generators go to every neighbour (size, then content), are received in *)
(*      neighbour order, and the sends are completed;                          *)
(*   3  the owner of shared nodes sends their positions the same way, content  *)
(*      only where there are any;                                              *)
(*   4  a final vote.                                                          *)
(* All interleavings are explored.  Broken = "none" is the design; the others  *)
(* are mistakes the model must be able to see.                                 *)
EXTENDS Mpi, TLC
CONSTANTS N, Rendezvous, Broken, Sizes
VARIABLES nbr, owns
all == <<pc, net, nbr, owns>>
P0 == 1..N
Pairs == {e \in P0 \X P0 : e[1] < e[2]}
Graphs == {g \in SUBSET Pairs : TRUE}
Sym(g) == g \cup {<<e[2], e[1]>> : e \in g}
Asc(S) == LET RECURSIVE f(_)
              f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o f(T \ {x})
          IN f(S)
Nb(g, i) == Asc({j \in P0 : <<i, j>> \in g})
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Ev(k, p, t, n, h, r) == [k |-> k, p |-> p, t |-> t, n |-> n, c |-> n, h |-> h, r |-> r]
Req(j, t) == 100 * t + j
SendKind == IF Broken = "blocking" THEN "send" ELSE "isend"

Bcasts == Cat([i \in 1..N |-> (IF Sizes THEN <<Ev("bcast", i - 1, 0, 4, <<"size", i>>, 0)>> ELSE <<>>)
                              \o <<Ev("bcast", i - 1, 0, 8, <<"hull", i>>, 0)>>])
Msg(i, j, t, what) == Ev(SendKind, j - 1, t, 8, <<what, i, j>>, Req(j, t))
Get(i, j, t, what) == Ev("recv", j - 1, t, 8, <<what, j, i>>, 0)
Done(i, j, t) == IF Broken = "blocking" \/ Broken = "nowait" THEN <<>> ELSE <<Ev("wait", -1, -1, 0, "", Req(j, t))>>
Phase(i, js, tags, sends, gets) ==
  LET out == Cat([x \in DOMAIN js |-> Cat([y \in DOMAIN tags |-> IF sends[i, js[x], tags[y]] THEN <<Msg(i, js[x], tags[y], tags[y])>> ELSE <<>>])])
      in  == Cat([x \in DOMAIN js |-> Cat([y \in DOMAIN tags |-> IF gets[i, js[x], tags[y]] THEN <<Get(i, js[x], tags[y], tags[y])>> ELSE <<>>])])
      end == Cat([x \in DOMAIN js |-> Cat([y \in DOMAIN tags |-> IF sends[i, js[x], tags[y]] THEN Done(i, js[x], tags[y]) ELSE <<>>])])
  IN out \o in \o end
GenTags  == IF Sizes THEN <<1, 2>> ELSE <<2>>
NodeTags == IF Sizes THEN <<9, 10>> ELSE <<10>>
Always == [i \in P0, j \in P0, t \in {1, 2, 9, 10} |-> TRUE]
Owned  == [i \in P0, j \in P0, t \in {1, 2, 9, 10} |-> t = 10 => <<i, j>> \in owns]
Expect == [i \in P0, j \in P0, t \in {1, 2, 9, 10} |-> t = 10 => (IF Broken = "disagree" THEN i > j ELSE <<j, i>> \in owns)]
\* In a one-sided graph process i believes in neighbours that do not know it.
Around(i) == Nb(nbr, i)
Prog == [i \in 1..N |-> Bcasts
          \o Phase(i, Around(i), GenTags, Always, Always)
          \o Phase(i, Around(i), NodeTags, Owned, Expect)
          \o <<Ev("allreduce", -1, 0, 4, "verdict", 0)>>]
\* The chosen programs do not change.
VARIABLE prog
Init == /\ \E g \in Graphs :
             /\ nbr \in (IF Broken = "onesided" THEN {g} ELSE {Sym(g)})
             /\ owns \in SUBSET nbr
        /\ prog = Prog
        /\ MpiInit(prog)
Next == MpiNext(prog, Rendezvous) /\ UNCHANGED <<nbr, owns, prog>>
Completes == NeverStuck(prog, Rendezvous)
Delivered == Matches(prog)
Collectives == Agree(prog)
Clean == NothingLeft(prog)
Requests == Completed(prog)
================================================================================
