------------------------------ MODULE QuantizeModel ------------------------------
(* Mode "keys": packing bins into keys, for every width and dimension in bounds.  *)
(* Mode "map": all sequences of look-ups and queries of a tolerant set.           *)
EXTENDS Quantize, TLC, Json
CONSTANTS Mode, Dim, Width, Side, Tol, MaxLen, Broken
VARIABLES st, hist, key
vars == <<st, hist, key>>
BinSet == [1..Dim -> 0..Pow(Width) - 1]
\* The broken packing leaves one bit too few for each axis.
MyKey(o, b) == IF Broken THEN Pack(b, 1, Width - 1) + (IF o THEN Flag(Dim, Width) ELSE 0) ELSE Key(o, b, Width)
Init == /\ st = <<>> /\ hist = <<>>
        /\ key \in IF Mode = "keys" THEN [outer : BOOLEAN, bins : BinSet] ELSE {0}
Next == /\ Mode = "map" /\ Len(hist) < MaxLen
        /\ \E p \in [1..Dim -> 0..Side], ask \in BOOLEAN :
             /\ hist' = Append(hist, [ask |-> ask, p |-> p])
             /\ st' = IF ask THEN st ELSE Stored(st, p, Tol)
             /\ key' = key
InvUnpack == Mode = "keys" => Unpack(MyKey(key.outer, key.bins), Dim, Width) = key
InvInjective == Mode = "keys" => \A o \in BOOLEAN, b \in BinSet :
                  MyKey(o, b) = MyKey(key.outer, key.bins) <=> (o = key.outer /\ b = key.bins)
\* Stored positions are far apart, and every position looked up is near one.
InvApart == \A i, j \in DOMAIN st : i # j => ~Close(st[i], st[j], Tol)
InvCovered == Mode = "map" => \A i \in DOMAIN hist : ~hist[i].ask => Have(st, hist[i].p, Tol)
Emit == Mode = "map" /\ Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
==================================================================================
