--------------------------------- MODULE Serial ---------------------------------
(* The buffer that values are written to and read from: a queue of values laid  *)
(* end to end behind whatever the buffer held before.  A write appends the      *)
(* value's bytes and changes no earlier byte; a read takes the oldest value     *)
(* not read yet, is equal to it, and ends exactly where that value's bytes end. *)
EXTENDS Integers, Sequences
\* A buffer: the pending values (each with the place of its bytes), the place
\* the next read starts at and the length in bytes.
Fresh(prefix) == [queue |-> <<>>, pos |-> prefix, len |-> prefix]
Write(b, val, size) == [queue |-> Append(b.queue, [val |-> val, from |-> b.len, to |-> b.len + size]), pos |-> b.pos, len |-> b.len + size]
CanRead(b) == b.queue # <<>>
Read(b) == [queue |-> Tail(b.queue), pos |-> Head(b.queue).to, len |-> b.len]
\* The pending values lie end to end between the reader and the end.
Contiguous(b) ==
  LET q == b.queue IN
  /\ IF q = <<>> THEN b.pos = b.len ELSE q[1].from = b.pos /\ q[Len(q)].to = b.len
  /\ \A i \in 1..Len(q) - 1 : q[i].to = q[i + 1].from
=================================================================================
