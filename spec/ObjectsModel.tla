------------------------------- MODULE ObjectsModel -------------------------------
(* Histories of operations on a few objects.  Values are numbers here; the        *)
(* replay fills in real ones.                                                     *)
EXTENDS Objects, TLC, Json
CONSTANTS Mode, Slots, Values, MaxLen
VARIABLES st, hist
Init == st = Start(Slots) /\ hist = <<>>
Do(o) == /\ Len(hist) < MaxLen
         /\ st' = After(st, o) /\ hist' = Append(hist, o)
\* What a box or a reduced copy holds is of no concern here.
Made == [facets |-> <<1>>, holes |-> <<>>, points |-> <<1>>]
NextMesh == \E s \in Slots :
  \/ \E op \in {"Mn", "Mc"} : Do([op |-> op, slot |-> s])
  \/ \E p \in MeshParts, v \in Values : Do([op |-> "Mf", slot |-> s, part |-> p, v |-> <<v>>])
NextOutline == \E s \in Slots :
  \/ \E op \in {"On", "Oc"} : Do([op |-> op, slot |-> s])
  \/ \E p \in OutlineParts, v \in Values : Do([op |-> "Of", slot |-> s, part |-> p, v |-> <<v>>])
  \/ \E t \in Slots \ {s}, op \in {"Oa", "Ok"} : Do([op |-> op, slot |-> s, from |-> t])
  \/ \E t \in Slots : Do([op |-> "Or", slot |-> s, from |-> t, made |-> Made])
  \/ Do([op |-> "Ob", slot |-> s, made |-> Made])
Next == IF Mode = "mesh" THEN NextMesh ELSE NextOutline
\* An operation touches one object, and clearing gives what a new one is.
OneAtATime == [][\E s \in Slots : \A t \in Slots \ {s} : st'.mesh[t] = st.mesh[t] /\ st'.outline[t] = st.outline[t]]_<<st, hist>>
ClearedIsNew == hist # <<>> /\ hist[Len(hist)].op \in {"Mc", "Oc"} =>
  LET o == hist[Len(hist)] IN IF o.op = "Mc" THEN MeshEmpty(st.mesh[o.slot]) ELSE OutlineEmpty(st.outline[o.slot]) /\ st.outline[o.slot].points = <<>>
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
==================================================================================
