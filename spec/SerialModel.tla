------------------------------- MODULE SerialModel -------------------------------
(* All interleavings of up to MaxWrites writes, of values of the given classes, *)
(* and their reads.  Also the design of the encoding: a value is a number or a  *)
(* sequence of values; a sequence is its length followed by its elements.       *)
(* Reading what was written back gives the value and leaves what follows, which *)
(* is why a reader needs no other framing.                                      *)
EXTENDS Serial, TLC, Json, FiniteSets, SequencesExt
CONSTANTS Classes, Garbage, MaxWrites, Depth, Broken
VARIABLES buf, hist
Init == \E p \in Garbage : buf = Fresh(p) /\ hist = <<<<"p", p>>>>
Writes == Cardinality({i \in DOMAIN hist : hist[i][1] = "w"})
Next == \/ /\ Writes < MaxWrites
           /\ \E k \in Classes : /\ buf' = Write(buf, k, k)
                                 /\ hist' = Append(hist, <<"w", k>>)
        \/ /\ CanRead(buf)
           /\ buf' = Read(buf)
           /\ hist' = Append(hist, <<"r", 0>>)
InvContiguous == Contiguous(buf)
Emit == Writes = MaxWrites /\ buf.queue = <<>> => PrintT("HIST " \o ToJson(hist))
----------------------------------------------------------------------------
\* The encoding.  Tokens stand for the fixed width words of the buffer.
Atoms == {0, 1, 2}
RECURSIVE Values(_)
Seqs(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
Values(d) == IF d = 0 THEN {[seq |-> FALSE, v |-> a] : a \in Atoms} ELSE {[seq |-> TRUE, v |-> s] : s \in Seqs(Values(d - 1))}
RECURSIVE Enc(_)
Enc(x) == IF x.seq
          THEN (IF Broken /\ x.v = <<>> THEN <<>> ELSE <<Len(x.v)>>) \o FlattenSeq([i \in 1..Len(x.v) |-> Enc(x.v[i])])
          ELSE <<x.v>>
RECURSIVE Dec(_, _)       \* depth, words -> value and rest
RECURSIVE DecSeq(_, _, _, _)
DecSeq(d, n, words, acc) ==
  IF n = 0 THEN <<acc, words>>
  ELSE IF words = <<>> THEN <<acc, <<>>>>
  ELSE LET r == Dec(d, words) IN DecSeq(d, n - 1, r[2], Append(acc, r[1]))
Dec(d, words) ==
  IF d = 0 THEN <<[seq |-> FALSE, v |-> Head(words)], Tail(words)>>
  ELSE LET r == DecSeq(d - 1, Head(words), Tail(words), <<>>) IN <<[seq |-> TRUE, v |-> r[1]], r[2]>>
Rests == {<<>>, <<0>>, <<2, 1>>, <<1, 0, 0, 2>>}
RoundTrip == \A d \in 0..Depth : \A x \in Values(d) : \A rest \in Rests :
               Enc(x) \o rest = <<>> \/ Dec(d, Enc(x) \o rest) = <<x, rest>>
==================================================================================
