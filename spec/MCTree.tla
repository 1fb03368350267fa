------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* All histories of partitions and mutations of small trees. The laws of   *)
(* EventTree are checked in every state; every transition found is printed *)
(* with a history leading to it, to be performed on the implementation.    *)
(***************************************************************************)
EXTENDS TreeOps, Json, IOUtils

N == atoi(IOEnv.LEN)         \* events at the beginning, at most
D == atoi(IOEnv.DEPTH)       \* operations
W == atoi(IOEnv.VIEWS)       \* views, at most
I == {1, 2}

VARIABLES s, hist
vars == <<s, hist>>

Init == \E n \in 0 .. N : \E ids \in [1 .. n -> I] :
          s = NewTree(ids) /\ hist = <<[o |-> "root", ids |-> ids]>>

PartitionOps(v) ==
  {[o |-> "subtree", v |-> v, ids |-> x, keep |-> 1] : x \in {<<1>>, <<1, 2>>}}
  \cup {[o |-> "separate", v |-> v, i |-> 2, keep |-> 1]}
  \cup {[o |-> "group", v |-> v, ids |-> <<1, 2>>, keep |-> 1]}
  \cup {[o |-> "divide", v |-> v, i |-> 1, ids |-> <<1, 2>>, keep |-> 1]}
  \cup {[o |-> "subtrees", v |-> v, sel |-> <<0, 1>>, rep |-> -1, keep |-> 1]}
MutationOps(v) ==
  {[o |-> "insert", v |-> v, pos |-> p, i |-> i] : p \in 0 .. (Len(Content(s, v)) + 1), i \in I}
  \cup {[o |-> "append", v |-> v, i |-> i] : i \in I}
  \cup {[o |-> x, v |-> v, i |-> i, pos |-> p] : x \in {"pop", "remove"}, i \in I, p \in 0 .. 1}

Say(o) == PrintT("@B" \o ToJson(Append(hist, o)))
Do(o) ==
  /\ Say(o)
  /\ hist' = Append(hist, o)
  /\ s' = IF o.o \in Partitions THEN AddViews(s, o.v, Parts(s, o)) ELSE Mutate(s, o, 1)

Next ==
  /\ Len(hist) <= D
  /\ \E v \in DOMAIN s.views :
       /\ s.views[v].ok
       /\ \E o \in PartitionOps(v) \cup MutationOps(v) :
            /\ o.o \in Partitions => Len(s.views) + Len(Parts(s, o)) <= W
            /\ Do(o)

Spec == Init /\ [][Next]_vars
View == <<s, Len(hist)>>      \* (independent of the order in which TLC finds states)

Inv == TypeOK(s) /\ Nested(s)
Order == [][KeepsOrder(s, s')]_vars
\* a mutation changes one event of the trees on the way up, and no other tree
Local == [][LET o == hist'[Len(hist')] IN
            o.o \notin Partitions =>
              \A v \in DOMAIN s.views :
                IF v \in Up(s, o.v) THEN Cardinality(s'.views[v].c) - Cardinality(s.views[v].c) \in {-1, 0, 1}
                ELSE s'.views[v].c = s.views[v].c]_vars
=============================================================================
