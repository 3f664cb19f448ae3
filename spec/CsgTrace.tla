---- MODULE CsgTrace ----
\* Replayed sessions of Boolean operations, seen at a set of probe places.
\* The state is the solid in every slot (the probes inside it); a step of the
\* session does the operation on the state and says what the library returned.
EXTENDS Csg, TLC, TLCExt, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, slots
vars == <<c, pc, slots>>
Case == Cases[c]
Probes == Case.probes

Wind(out, p) == IF Case.dim = 2 THEN Wind2(out, p) ELSE Wind3(out, p)
Solid(out) == {i \in DOMAIN Probes : Wind(out, Probes[i]) = 1}

Init == c \in DOMAIN Cases /\ pc = 0 /\ slots = [i \in DOMAIN Cases[c].defs |-> {j \in DOMAIN Cases[c].probes : IF Cases[c].dim = 2 THEN Wind2(Cases[c].defs[i], Cases[c].probes[j]) = 1 ELSE Wind3(Cases[c].defs[i], Cases[c].probes[j]) = 1}]
Step == Case.steps[pc']
Next == /\ pc < Len(Case.steps)
        /\ pc' = pc + 1
        /\ c' = c
        /\ slots' = IF Step.op \in {"union", "intersect", "subtract"} THEN Append(slots, Apply(Step.op, slots[Step.a], slots[Step.b]))
                    ELSE IF Step.op = "reduce" THEN Append(slots, UNION {slots[Step.of[i]] : i \in DOMAIN Step.of})
                    ELSE slots
Now == Case.steps[pc]
Produces == pc > 0 /\ Now.op \in {"union", "intersect", "subtract", "reduce"}

\* The result encloses exactly the set-theoretic result, in one sense, and once.
InvEncloses == Produces => \A i \in DOMAIN Probes : Wind(Now.out, Probes[i]) = IF i \in slots[Len(slots)] THEN 1 ELSE 0
\* It is a boundary.
InvClosed == Produces => Cancels(Now.ids)
\* On a grid, with a probe in every cell: the area is that of the cells.
InvArea == (Produces /\ Case.cell > 0) => Area2(Now.out) = 2 * Case.cell * Case.cell * Cardinality(slots[Len(slots)])
\* Operands and all other outlines are what they were.
InvKept == pc > 0 => Now.kept
\* The pieces a clip returns: their union is the intersection; the first is the one around the point.
InvClip == (pc > 0 /\ Now.op = "clip") =>
   /\ \A i \in DOMAIN Probes : Wind2(FlattenSeq(Now.outs), Probes[i]) = IF i \in slots[Now.a] \cap slots[Now.b] THEN 1 ELSE 0
   /\ \A k \in DOMAIN Now.outs : (Wind2(Now.outs[k], Now.at) = 1) = (k = 1)
InvWithin == (pc > 0 /\ Now.op = "within") => (Now.answer = 1) = (Now.probe \in slots[Now.a])
\* On a grid two solids meet when two of their cells share a corner.
Near(p, q) == \A k \in {1, 2} : p[k] - q[k] <= Case.cell /\ q[k] - p[k] <= Case.cell
InvMeets == (pc > 0 /\ Now.op = "meets") => (Now.answer = 1) = (\E i \in slots[Now.a], j \in slots[Now.b] : Near(Probes[i], Probes[j]))
\* No outline of these sessions meets itself.
InvSelf == (pc > 0 /\ Now.op = "self") => Now.answer = 0
====
