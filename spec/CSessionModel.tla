------------------------------ MODULE CSessionModel ------------------------------
(* Histories of calls.  "outline": calls on the content of one outline.         *)
(* "life": objects made, filled, cleared and freed in any legal order.          *)
EXTENDS CSession, TLC, Json
CONSTANTS Mode, Slots, Sets, MaxLen
VARIABLES st, hist
Init == st = Start(Slots) /\ hist = <<>>
Fit(o) == Legal(st, o) /\ Len(hist) < MaxLen
Do(o) == Fit(o) /\ st' = After(st, o) /\ hist' = Append(hist, o)
\* A whole outline at once: the sides of outline number w, or its holes too.
Boxes == 1..2
Side(i, n, off) == <<off + i - 1, off + (i % n)>>
Loop(n, off) == [i \in 1..n |-> Side(i, n, off)]
Shape(w) == CASE w = 1 -> [facets |-> Loop(4, 0), holes |-> <<>>]
             [] w = 2 -> [facets |-> Loop(4, 0), holes |-> <<Loop(4, 4)>>]
             [] w = 3 -> [facets |-> Loop(6, 0), holes |-> <<>>]
Build(s, w) == /\ Len(hist) < MaxLen
               /\ st.plc[s].live /\ PlcEmpty(st.plc[s]) /\ st.plc[s].dim = 2
               /\ st' = [st EXCEPT !.plc[s].facets = Shape(w).facets, !.plc[s].holes = Shape(w).holes]
               /\ hist' = Append(hist, [op |-> "build", slot |-> s, shape |-> w])
Which(s) == {w \in 1..3 : st.plc[s].facets = Shape(w).facets /\ st.plc[s].holes = Shape(w).holes}
NextOutline ==
  \E s \in Slots : \/ \E d \in {2, 3} : Do([op |-> "Pn", slot |-> s, dim |-> d])
                   \/ \E op \in {"Pc", "Pf", "Paf", "Pah"} : Do([op |-> op, slot |-> s])
                   \/ st.plc[s].live /\ \E f \in 0..Len(st.plc[s].facets) - 1 : Do([op |-> "Pan", slot |-> s, f |-> f, n |-> Len(hist)])
                   \/ st.plc[s].live /\ \E h \in 0..Len(st.plc[s].holes) - 1 :
                        \/ Do([op |-> "Phf", slot |-> s, h |-> h])
                        \/ \E f \in 0..Len(st.plc[s].holes[h + 1]) - 1 : Do([op |-> "Phn", slot |-> s, h |-> h, f |-> f, n |-> Len(hist)])
NextLife ==
  \E s \in Slots : \/ Do([op |-> "Pn", slot |-> s, dim |-> 2]) \/ \E w \in 1..3 : Build(s, w)
                   \/ \E op \in {"Pc", "Pf", "Pp", "Mc", "Mf", "Mp", "Tn", "Tf", "Ti"} : Do([op |-> op, slot |-> s])
                   \/ \E d \in {2, 3} : Do([op |-> "Mn", slot |-> s, dim |-> d])
                   \/ \E g \in Sets, m \in Slots :
                        \/ Do([op |-> "tu", slot |-> s, g |-> g, mesh |-> m, ref |-> g])
                        \/ \E b \in Boxes : Do([op |-> "tb", slot |-> s, g |-> g, mesh |-> m, box |-> b, ref |-> g])
                        \/ \E p \in Slots : /\ st.plc[p].live /\ Which(p) # {}
                                            /\ Do([op |-> "tp", slot |-> s, g |-> g, mesh |-> m, plc |-> p, shape |-> CHOOSE w \in Which(p) : TRUE, ref |-> g])
Next == IF Mode = "outline" THEN NextOutline ELSE NextLife
\* Only living objects hold anything, and freeing everything is always possible.
HoldsOnlyIfLive == \A s \in Slots : (~st.plc[s].live => st.plc[s] = None) /\ (~st.mesh[s].live => st.mesh[s] = None)
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
==================================================================================
