-------------------------------- MODULE CSession --------------------------------
(* The C interface as a state machine: outline, mesh and tessellator objects in *)
(* slots, each created, changed, cleared, used and freed by calls.  An outline  *)
(* holds what was added to it; a mesh is empty or holds the tessellation of the *)
(* request that was made last; nothing else changes.                            *)
(* Every operator takes and gives a whole state, so that the same definitions   *)
(* drive the enumeration of histories and the replay of recorded sessions.      *)
EXTENDS Integers, Sequences
None == [live |-> FALSE]
EmptyPlc(d) == [live |-> TRUE, dim |-> d, facets |-> <<>>, holes |-> <<>>]
EmptyMesh(d) == [live |-> TRUE, dim |-> d, filled |-> FALSE]
Start(slots) == [plc |-> [s \in slots |-> None], mesh |-> [s \in slots |-> None], tess |-> [s \in slots |-> None]]

SetPlc(st, s, v) == [st EXCEPT !.plc[s] = v]
SetMesh(st, s, v) == [st EXCEPT !.mesh[s] = v]
SetTess(st, s, v) == [st EXCEPT !.tess[s] = v]

\* Legal calls.  o is a record [op, slot, ...].
Legal(st, o) ==
  LET s == o.slot IN
  CASE o.op = "Pn" -> ~st.plc[s].live
    [] o.op \in {"Pc", "Pf", "Pp", "Paf", "Pah"} -> st.plc[s].live
    [] o.op = "Pan" -> st.plc[s].live /\ o.f + 1 \in DOMAIN st.plc[s].facets
    [] o.op = "Phf" -> st.plc[s].live /\ o.h + 1 \in DOMAIN st.plc[s].holes
    [] o.op = "Phn" -> st.plc[s].live /\ o.h + 1 \in DOMAIN st.plc[s].holes /\ o.f + 1 \in DOMAIN st.plc[s].holes[o.h + 1]
    [] o.op = "Mn" -> ~st.mesh[s].live
    [] o.op \in {"Mc", "Mf", "Mp"} -> st.mesh[s].live
    [] o.op = "Tn" -> ~st.tess[s].live
    [] o.op \in {"Tf", "Ti"} -> st.tess[s].live
    [] o.op \in {"tu", "tb"} -> st.tess[s].live /\ st.mesh[o.mesh].live /\ st.mesh[o.mesh].dim = 2 /\ ~st.mesh[o.mesh].filled
    [] o.op = "tp" -> st.tess[s].live /\ st.mesh[o.mesh].live /\ st.mesh[o.mesh].dim = 2 /\ ~st.mesh[o.mesh].filled /\ st.plc[o.plc].live
    [] OTHER -> FALSE

\* The index an addition returns.
Returned(st, o) ==
  CASE o.op = "Paf" -> Len(st.plc[o.slot].facets)
    [] o.op = "Pah" -> Len(st.plc[o.slot].holes)
    [] o.op = "Phf" -> Len(st.plc[o.slot].holes[o.h + 1])

After(st, o) ==
  LET s == o.slot IN
  CASE o.op = "Pn" -> SetPlc(st, s, EmptyPlc(o.dim))
    [] o.op = "Pc" -> SetPlc(st, s, EmptyPlc(st.plc[s].dim))
    [] o.op = "Pf" -> SetPlc(st, s, None)
    [] o.op = "Paf" -> [st EXCEPT !.plc[s].facets = Append(@, <<>>)]
    [] o.op = "Pan" -> [st EXCEPT !.plc[s].facets[o.f + 1] = Append(@, o.n)]
    [] o.op = "Pah" -> [st EXCEPT !.plc[s].holes = Append(@, <<>>)]
    [] o.op = "Phf" -> [st EXCEPT !.plc[s].holes[o.h + 1] = Append(@, <<>>)]
    [] o.op = "Phn" -> [st EXCEPT !.plc[s].holes[o.h + 1][o.f + 1] = Append(@, o.n)]
    [] o.op = "Mn" -> SetMesh(st, s, EmptyMesh(o.dim))
    [] o.op = "Mc" -> SetMesh(st, s, EmptyMesh(st.mesh[s].dim))
    [] o.op = "Mf" -> SetMesh(st, s, None)
    [] o.op = "Tn" -> SetTess(st, s, [live |-> TRUE])
    [] o.op = "Tf" -> SetTess(st, s, None)
    [] o.op \in {"tu", "tb", "tp"} -> SetMesh(st, o.mesh, [live |-> TRUE, dim |-> 2, filled |-> TRUE, holds |-> o.ref])
    [] OTHER -> st

\* What an outline says about itself.
PlcEmpty(p) == p.facets = <<>> /\ p.holes = <<>>
FacetOk(p, f) == IF p.dim = 2 THEN Len(f) = 2 ELSE Len(f) >= 3
PlcValid(p) == /\ \A i \in DOMAIN p.facets : FacetOk(p, p.facets[i])
               /\ \A h \in DOMAIN p.holes : \A i \in DOMAIN p.holes[h] : FacetOk(p, p.holes[h][i])
=================================================================================
