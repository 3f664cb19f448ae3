------------------------------- MODULE SerialTrace -------------------------------
(* Writes and reads recorded from the library, replayed on the buffer of        *)
(* Serial.tla.  Values are texts of bit patterns: equality is exact.            *)
EXTENDS Serial, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, buf
vars == <<c, pc, buf>>
R == Trace[c]
Init == c \in 1..Len(Trace) /\ pc = 0 /\ buf = Fresh(Trace[c].prefix)
Op == R.ops[pc + 1]
Next == /\ pc < Len(R.ops)
        /\ pc' = pc + 1
        /\ UNCHANGED c
        /\ IF Op.op = "w" THEN buf' = Write(buf, <<Op.kind, Op.val>>, Op.to - Op.from) ELSE CanRead(buf) /\ buf' = Read(buf)
InvAllowed == pc = Len(R.ops) \/ Op.op = "w" \/ CanRead(buf)
\* A write starts at the end of the buffer and never shortens it.
InvAppends == pc < Len(R.ops) /\ Op.op = "w" => Op.from = buf.len /\ Op.to >= Op.from
\* Neither changes what the buffer held.
InvKept == pc < Len(R.ops) => Op.kept
\* A read gives the oldest pending value ...
InvValue == pc < Len(R.ops) /\ Op.op = "r" => <<Op.kind, Op.val>> = Head(buf.queue).val
\* ... and consumes exactly its bytes.
InvConsumes == pc < Len(R.ops) /\ Op.op = "r" => Op.from = Head(buf.queue).from /\ Op.to = Head(buf.queue).to
InvContiguous == Contiguous(buf)
==================================================================================
