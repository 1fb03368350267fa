------------------------------- MODULE MCParts -------------------------------
(***************************************************************************)
(* Every partition of every small tree: one behaviour for every sequence   *)
(* of at most LEN events over three identifiers, and for every view on     *)
(* those of at most NEST events. The laws of partitions are checked here,  *)
(* the behaviours are performed on the implementation.                     *)
(***************************************************************************)
EXTENDS TreeOps, Json, IOUtils

N == atoi(IOEnv.LEN)
M == atoi(IOEnv.NEST)
I == 1 .. 3

Subsets == {SetToSortSeq(x, <) : x \in SUBSET I}
Lists == {q \in UNION {[1 .. n -> I] : n \in 1 .. 3} : Cardinality(ToSet(q)) = Len(q)}
OpsOn(v) ==
  {[o |-> "subtree", v |-> v, ids |-> x, keep |-> 0] : x \in Subsets}
  \cup {[o |-> "separate", v |-> v, i |-> i, keep |-> 0] : i \in I}
  \cup {[o |-> "group", v |-> v, ids |-> q, keep |-> 0] : q \in Lists}
  \cup {[o |-> "divide", v |-> v, i |-> i, ids |-> x, keep |-> 0] : i \in I, x \in Subsets}
  \cup {[o |-> "subtrees", v |-> v, sel |-> f, rep |-> r, keep |-> 0] : f \in [I -> 0 .. 2], r \in -1 .. 2}
  \cup {[o |-> "look", v |-> v, i |-> i] : i \in I}
All == <<SetToSeq(OpsOn(1)), SetToSeq(OpsOn(2))>>

VARIABLES s, hist, done
vars == <<s, hist, done>>

Init == \E n \in 0 .. N : \E ids \in [1 .. n -> I] :
          s = NewTree(ids) /\ hist = <<[o |-> "root", ids |-> ids]>> /\ done = FALSE

\* the operations on the root
Flat == /\ PrintT("@B" \o ToJson(hist \o All[1]))
        /\ done' = TRUE /\ UNCHANGED <<s, hist>>
\* and on a view of it
Nest == /\ Len(s.root) <= M
        /\ \E x \in Subsets :
             LET o == [o |-> "subtree", v |-> 1, ids |-> x, keep |-> 1]
             IN /\ s' = AddViews(s, 1, Parts(s, o))
                /\ hist' = Append(hist, o)
                /\ PrintT("@B" \o ToJson(hist' \o All[2]))
        /\ done' = TRUE
Next == ~done /\ (Flat \/ Nest)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
V == Len(s.views)
Cat(parts) == FoldLeft(LAMBDA a, b : a \o b, <<>>, parts)
Of(x) == SelectSeq(Content(s, V), LAMBDA t : s.eid[t] \in x)
\* divide: nothing is lost, repeated or reordered; one view per separator
DivideLaw == \A i \in I, x \in SUBSET I :
  LET p == Divide(s, V, i, x)
  IN IF OfId(s, V, i) = <<>> THEN p = <<>>
     ELSE Cat(p) = Of(x) /\ Len(p) = Len(OfId(s, V, i))
          /\ (i \in x => \A k \in DOMAIN p : Len(SelectSeq(p[k], LAMBDA t : s.eid[t] = i)) = 1)
SeparateLaw == \A i \in I :
  LET p == Separate(s, V, i) IN Cat(p) = OfId(s, V, i) /\ \A k \in DOMAIN p : Len(p[k]) = 1
\* group: the views hold all the events of the identifiers, at most one each
GroupLaw == \A q \in Lists :
  LET p == Group(s, V, q)
  IN /\ UNION {ToSet(p[k]) : k \in DOMAIN p} = ToSet(Of(ToSet(q)))
     /\ Len(Cat(p)) = Len(Of(ToSet(q)))
     /\ \A k \in DOMAIN p, i \in I : Len(SelectSeq(p[k], LAMBDA t : s.eid[t] = i)) <= 1
\* subtrees: everything not skipped, in order, a view begins at every boundary
SubtreesLaw == \A f \in [I -> 0 .. 2] :
  LET p == Subtrees(s, V, f, -1)
  IN /\ Cat(p) = Of({i \in I : f[i] # 2})
     /\ \A k \in DOMAIN p : \A j \in 2 .. Len(p[k]) : f[s.eid[p[k][j]]] = 1
     /\ \A r \in 0 .. 2 : Subtrees(s, V, f, r) = SubSeq(p, 1, Min({r, Len(p)}))
\* the view of a view is the view of both conditions
SubtreeLaw == \A x, y \in SUBSET I :
  LET z == AddViews(s, V, Subtree(s, V, x))
  IN Subtree(z, Len(z.views), y) = Subtree(s, V, x \cap y)
Inv == TypeOK(s) /\ Nested(s) /\ DivideLaw /\ SeparateLaw /\ GroupLaw /\ SubtreesLaw /\ SubtreeLaw
=============================================================================
