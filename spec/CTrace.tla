--------------------------------- MODULE CTrace ---------------------------------
(* Sessions recorded from the C interface.  After every call the record shows   *)
(* every live object; tessellations come with what the C++ library gave for the *)
(* same request.  Coordinates are digit strings: equality is exact.             *)
EXTENDS CSession, Json, IOUtils, TLC, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, st
vars == <<c, pc, st>>
Slots == 0..3
R == Trace[c]
Init == c \in 1..Len(Trace) /\ pc = 0 /\ st = Start(Slots)
Op == R.ops[pc + 1]
Next == pc < Len(R.ops) /\ Legal(st, Op) /\ pc' = pc + 1 /\ st' = After(st, Op) /\ UNCHANGED c
E == R.ops[pc]              \* the call just made
InvLegal == pc = Len(R.ops) \/ Legal(st, Op)
InvReturned == pc < Len(R.ops) /\ Op.op \in {"Paf", "Pah", "Phf"} => Op.ret = Returned(st, Op)
\* Outlines hold what was added to them.
InvOutlines == pc > 0 => \A s \in Slots :
  LET v == E.plcs[s + 1] p == st.plc[s] IN
  /\ v.live = p.live
  /\ p.live => /\ v.facets = p.facets /\ v.holes = p.holes
               /\ v.empty = PlcEmpty(p) /\ v.valid = PlcValid(p)
\* The documented layout of a mesh.
Offsets(ls) == [i \in 1..Len(ls) + 1 |-> FoldLeft(LAMBDA a, x : a + Len(x), 0, SubSeq(ls, 1, i - 1))]
Plain(x) == IF x < 0 THEN -x - 1 ELSE x
FaceCells(fc) == [k \in 1..2 * Len(fc) |-> LET f == fc[(k + 1) \div 2] IN
                   IF k % 2 = 1 THEN Plain(f[1]) ELSE IF Len(f) = 2 THEN Plain(f[2]) ELSE -1]
Layout(v, m) ==
  /\ v.sane
  /\ v.num_nodes * 2 = Len(m.nodes) /\ v.nodes = m.nodes
  /\ v.num_cells = Len(m.cells) /\ v.cell_offsets = Offsets(m.cells) /\ v.cell_faces = FlattenSeq(m.cells)
  /\ v.num_faces = Len(m.faces) /\ v.face_offsets = Offsets(m.faces) /\ v.face_nodes = FlattenSeq(m.faces)
  /\ v.num_bnodes = Len(m.bnodes) /\ v.bnodes = m.bnodes
  /\ v.num_bfaces = Len(m.bfaces) /\ v.bfaces = m.bfaces
  /\ v.face_cells = FaceCells(m.faceCells)
  /\ v.num_neighbors = Len(m.neighbors) /\ v.neighbors = m.neighbors
  /\ m.neighbors = <<>> => v.shared_node_offsets = <<0>> /\ v.shared_face_offsets = <<0>>
Emptied(v) == /\ ~v.any
              /\ v.num_nodes = 0 /\ v.num_cells = 0 /\ v.num_faces = 0 /\ v.num_bnodes = 0 /\ v.num_bfaces = 0 /\ v.num_neighbors = 0
InvMeshes == pc > 0 => \A s \in Slots :
  LET v == E.meshes[s + 1] m == st.mesh[s] IN
  /\ v.live = m.live
  /\ m.live => v.dimension = m.dim /\ IF m.filled THEN Layout(v, m.holds) ELSE Emptied(v)
IsTess == pc > 0 /\ E.op \in {"tu", "tb", "tp"}
InvInputs == IsTess => E.inputs /\ (E.op = "tp" => E.reffacets = st.plc[E.plc].facets /\ E.refholes = st.plc[E.plc].holes)
InvHull == IsTess => LET h == E.ref.hull v == E.hullview IN
  /\ v.live = (h.facets # <<>> \/ h.holes # <<>>)
  /\ v.live => v.facets = h.facets /\ v.holes = h.holes /\ v.numFacets = Len(h.facets) /\ v.numHoles = Len(h.holes)
InvTessellators == pc > 0 /\ E.op = "Ti" =>
  /\ E.handles = E.refHandles /\ E.dimension = 2 /\ E.degeneracy = E.refDegeneracy
  /\ E.name = E.refName /\ E.name2 = E.refName
\* Printing stays within the buffer and gives the head of the whole text.
InvPrinted == pc > 0 /\ E.op \in {"Mp", "Pp"} => E.inside /\ E.ended /\ E.head /\ E.text /\ E.some
\* No block is freed twice or by the wrong means, overrun, or written to after it was freed.
InvHeap == pc > 0 => E.bad = 0
InvNoLeak == R.leaked = 0 /\ R.bad = 0
=================================================================================
