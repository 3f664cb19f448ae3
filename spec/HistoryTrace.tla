------------------------------ MODULE HistoryTrace ------------------------------
(* Sessions replayed on the library.  A record carries the history, the replies *)
(* (digits and all: coordinates are strings) and the reference reply of each    *)
(* request, given by a process that served nothing else.                        *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Book == ndJsonDeserialize(IOEnv.BOOK)      \* Book[b][k]: reference replies
VARIABLES c, i, held
vars == <<c, i, held>>
R == Trace[c]
N == Len(R.hist)
Init == c \in 1..Len(Trace) /\ i = 0 /\ held = <<"", "">>
Next == /\ i < N
        /\ i' = i + 1
        /\ held' = [held EXCEPT ![R.hist[i + 1][1]] = R.replies[i + 1].mesh]
        /\ UNCHANGED c
Ref(k) == Book[R.book].refs[k]
\* The reply is the reference reply, bit for bit, whatever went before.
InvSame == i >= 1 => R.replies[i].mesh = Ref(R.hist[i][2]).mesh
InvMap == i >= 1 => R.replies[i].map = Ref(R.hist[i][2]).map
\* The inputs are as they were.
InvKept == i >= 1 => R.replies[i].kept
=================================================================================
