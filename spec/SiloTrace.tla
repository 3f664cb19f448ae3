------------------------------- MODULE SiloTrace -------------------------------
(* One write of a mesh per process, recorded: what each process meant to write, *)
(* the merged history of opening and closing files, and what a reader of the    *)
(* master file finds.  Real numbers are texts of their bit patterns.            *)
EXTENDS Silo, PolyMesh, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, files
vars == <<c, pc, files>>
R == Trace[c]
P == Len(R.procs)
F == R.nfiles

\* --- history: the steps of the model, each enabled where it happened ---------
Paths == {R.log[i].f : i \in 1..Len(R.log)}
Init == /\ c \in 1..Len(Trace)
        /\ pc = 0
        /\ files = [f \in {Trace[c].log[i].f : i \in 1..Len(Trace[c].log)} |-> NoFile]
Op == R.log[pc + 1]
Step(f, e) == CASE e.k = "create" -> Create(f, e.p)
                [] e.k = "append" -> Join(f, e.p)
                [] e.k = "close" -> Close(f, e.p)
                [] OTHER -> f
Next == /\ pc < Len(R.log)
        /\ pc' = pc + 1
        /\ files' = [files EXCEPT ![Op.f] = Step(@, Op)]
        /\ UNCHANGED c
Done == pc = Len(R.log)
\* One process at a time has a file open, ...
InvExclusive == \A f \in DOMAIN files : Cardinality(files[f].open) <= 1
\* ... nobody replaces a file another process has written during this write, ...
Wrote(f) == {R.log[i].p : i \in {j \in 1..pc : R.log[j].f = f /\ R.log[j].k \in {"create", "append"}}}
InvKept == ~Done /\ Op.k = "create" => Wrote(Op.f) \subseteq {Op.p}
\* ... opening succeeds, and everything is closed in the end.
InvOpens == ~Done => Op.k # "fail"
InvClosed == Done => \A f \in DOMAIN files : files[f].open = {}

\* --- contents -----------------------------------------------------------------
Named(s, n) == {i \in DOMAIN s : s[i].name = n}
Val(s, n) == LET I == Named(s, n) IN IF Cardinality(I) = 1 THEN s[CHOOSE i \in I : TRUE].val ELSE <<"absent">>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Lens(s) == [i \in DOMAIN s |-> Len(s[i])]
Nats(s) == [i \in DOMAIN s |-> Id(s[i])]
\* A zone may be given as an open or as a closed walk.
Open(z) == IF Len(z) > 1 /\ z[1] = z[Len(z)] THEN SubSeq(z, 1, Len(z) - 1) ELSE z

SameNodes(m, d) == d.dim = m.dim /\ d.nodes = m.nodes
SameZones(m, d) ==
  IF m.dim = 2
  THEN /\ d.nzones = Len(m.cells)
       /\ "zones" \in DOMAIN d
       /\ Len(d.zones) = Len(m.cells)
       /\ \A i \in 1..Len(m.cells) : Open(d.zones[i]) = [j \in 1..Len(m.cells[i]) |-> From(m, m.cells[i][j])]
  ELSE /\ "phfaces" \in DOMAIN d
       /\ d.phfaces = m.faces
       /\ d.phzones = m.cells
       /\ d.phn = Len(m.cells)
SameBorder(m, d) ==
  IF m.dim = 2
  THEN {{d.bfaces[i][1], d.bfaces[i][2]} : i \in DOMAIN d.bfaces} = {{Face(m, m.bfaces[i])[1], Face(m, m.bfaces[i])[2]} : i \in DOMAIN m.bfaces}
       /\ Len(d.bfaces) = Len(m.bfaces)
  ELSE "ext" \in DOMAIN d /\ Rng(d.ext) = Rng(m.bfaces)
\* Both cells of a face (a border face repeats its own), as plain or signed indices.
FaceCellsOf(m) == Flat([f \in DOMAIN m.faceCells |-> <<m.faceCells[f][1], m.faceCells[f][Len(m.faceCells[f])]>>])
SameConn(m, d) ==
  /\ Len(d.conn) = 3
  /\ Val(d.conn, "ncellfaces") = Lens(m.cells)
  /\ Val(d.conn, "cellfaces") \in {Flat(m.cells), Nats(Flat(m.cells))}
  /\ Val(d.conn, "facecells") \in {FaceCellsOf(m), Nats(FaceCellsOf(m))}
SameHull(m, d) ==
  \* A tessellation given through the C interface has no outline.
  LET h == IF R.api = 0 THEN m.hull ELSE <<>> IN
  /\ Val(d.hull, "nfacets") = <<Len(h)>>
  /\ (h = <<>> \/ Val(d.hull, "nfacetnodes") = Lens(h))
  /\ (Flat(h) = <<>> \/ Val(d.hull, "facetnodes") = Flat(h))
Find(s, n) == {i \in DOMAIN s : s[i].name = n}
SameFields(m, d) ==
  \A i \in DOMAIN m.fields :
     \E j \in Find(d.fields, m.fields[i].name) :
        /\ d.fields[j].at = m.fields[i].at
        /\ d.fields[j].val = m.fields[i].val
        /\ d.fields[j].n = P
TagsAt(m, at) == {<<m.tags[i].name, m.tags[i].val>> : i \in {k \in DOMAIN m.tags : m.tags[k].at = at}}
ReadTags(s) == {<<s[i].name, s[i].val>> : i \in DOMAIN s}
SameTags(m, d) ==
  /\ ReadTags(d.nodeTags) = TagsAt(m, "node") /\ ReadTags(d.edgeTags) = TagsAt(m, "edge")
  /\ ReadTags(d.faceTags) = TagsAt(m, "face") /\ ReadTags(d.cellTags) = TagsAt(m, "cell")
SameTime(m, d) == /\ (m.cycle >= 0 => d.cycle = m.cycle)
                  /\ (m.hasTime => d.time = m.time)

D == R.got.domains
\* The master's domains and the processes, matched by what they contain: domain i
\* is that of process i (the groups are ranges of processes, in order).
Paired(Same(_, _)) == Done => /\ Len(D) = P
                              /\ \A i \in 1..P : D[i].missing = "" /\ Same(R.procs[i], D[i])
InvMaster == Done => /\ R.got.master /\ Len(D) = P /\ \A i \in 1..P : D[i].missing = ""
                     /\ Cardinality({D[i].ref : i \in 1..P}) = P
                     /\ (R.procs[1].cycle >= 0 => R.got.mcycle = R.procs[1].cycle)
                     /\ (R.procs[1].hasTime => R.got.mtime = R.procs[1].time)
InvNodes == Paired(SameNodes)
InvZones == Paired(SameZones)
InvBorder == Paired(SameBorder)
InvConn == Paired(SameConn)
InvHull == Paired(SameHull)
InvFields == Paired(SameFields)
InvTags == Paired(SameTags)
InvTime == Paired(SameTime)
\* Every file has the domains of its processes and refers to each of them.
InvGroups == Done =>
  /\ Len(R.got.groups) = F
  /\ \A g \in 1..F :
       LET q == R.got.groups[g] n == GroupSize(P, F, g - 1) IN
       /\ q.there
       /\ Cardinality(Rng(q.refs)) = n /\ Len(q.refs) = n
       /\ Len(q.dirs) = n
       /\ \A v \in DOMAIN q.vrefs : Len(q.vrefs[v]) = n /\ Cardinality(Rng(q.vrefs[v])) = n
================================================================================
