------------------------------ MODULE EventTree ------------------------------
(***************************************************************************)
(* The tree of views on the events of a project (pyflp/_events.py). The    *)
(* root holds the events of the file; every other tree is a view on some   *)
(* events of its parent, made by one of the five partition operations.     *)
(* Insertions and removals through a view reach all of its ancestors.      *)
(*                                                                         *)
(* Events are tokens 1, 2, ...; s is a state:                              *)
(*   root   tokens in file order                                           *)
(*   eid    identifier of every token ever made                            *)
(*   views  [p |-> parent (0: none), c |-> set of tokens, ok |-> BOOLEAN]  *)
(* views[1] is the root. A view which still holds an event that was        *)
(* removed through another one is out of date (~ok) and not used again.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NewTree(ids) ==
  [root |-> [i \in DOMAIN ids |-> i], eid |-> ids,
   views |-> <<[p |-> 0, c |-> DOMAIN ids, ok |-> TRUE]>>]

\* tokens of a set in file order; of a view
Ordered(s, c) == SelectSeq(s.root, LAMBDA t : t \in c)
Content(s, v) == Ordered(s, s.views[v].c)
Ids(s, ts) == [i \in DOMAIN ts |-> s.eid[ts[i]]]
OfId(s, v, id) == SelectSeq(Content(s, v), LAMBDA t : s.eid[t] = id)
PosIn(q, t) == CHOOSE i \in DOMAIN q : q[i] = t

----------------------------------------------------------------------------
\* the partition operations: a sequence of sequences of tokens
Subtree(s, v, ids) == <<SelectSeq(Content(s, v), LAMBDA t : s.eid[t] \in ids)>>
Separate(s, v, id) == LET q == OfId(s, v, id) IN [i \in DOMAIN q |-> <<q[i]>>]
\* the k-th view has the k-th event of every identifier
Group(s, v, ids) ==
  LET qs == [i \in DOMAIN ids |-> OfId(s, v, ids[i])]
      n == Max({0} \cup {Len(qs[i]) : i \in DOMAIN qs})
  IN [k \in 1 .. n |-> Ordered(s, {qs[i][k] : i \in {j \in DOMAIN qs : k <= Len(qs[j])}})]
\* from every separator to the next one, only events in ids. Events before
\* the first separator belong to the first view (Lead).
Lead(s, v, sep, ids) ==
  LET q == Content(s, v)
      at == {i \in DOMAIN q : s.eid[q[i]] = sep}
  IN IF at = {} THEN {} ELSE {q[i] : i \in {j \in DOMAIN q : j < Min(at) /\ s.eid[q[j]] \in ids}}
Divide(s, v, sep, ids) ==
  LET q == Content(s, v)
      at == SetToSortSeq({i \in DOMAIN q : s.eid[q[i]] = sep}, <)
      lo(k) == IF k = 1 THEN 1 ELSE at[k]
      hi(k) == IF k = Len(at) THEN Len(q) ELSE at[k + 1] - 1
  IN [k \in DOMAIN at |-> SelectSeq(SubSeq(q, lo(k), hi(k)), LAMBDA t : s.eid[t] \in ids)]
\* sel[id]: 1 take it, 0 begin a new view with it, 2 skip it
Subtrees(s, v, sel, rep) ==
  LET q == SelectSeq(Content(s, v), LAMBDA t : sel[s.eid[t]] # 2)
      at == SetToSortSeq({i \in DOMAIN q : sel[s.eid[q[i]]] = 0}, <)
      n == Len(at) + 1
      lo(k) == IF k = 1 THEN 1 ELSE at[k - 1]
      hi(k) == IF k = n THEN Len(q) ELSE at[k] - 1
      all == [k \in 1 .. n |-> SubSeq(q, lo(k), hi(k))]
      some == IF all[n] = <<>> THEN SubSeq(all, 1, n - 1) ELSE all
  IN IF rep < 0 THEN some ELSE SubSeq(some, 1, Min({rep, Len(some)}))

\* the views made by an operation become children of v
AddViews(s, v, parts) ==
  [s EXCEPT !.views = @ \o [k \in DOMAIN parts |-> [p |-> v, c |-> ToSet(parts[k]), ok |-> TRUE]]]

----------------------------------------------------------------------------
RECURSIVE Up(_, _)
Up(s, v) == IF v = 0 THEN {} ELSE {v} \cup Up(s, s.views[v].p)

\* where in the root an event inserted at position pos (from 0) of view v goes:
\* right before the event at that position, or right after the last one
RootPos(s, v, pos) ==
  LET q == Content(s, v)
  IN IF q = <<>> THEN 1
     ELSE IF pos = Len(q) THEN PosIn(s.root, q[Len(q)]) + 1
     ELSE PosIn(s.root, q[pos + 1])
CanInsert(s, v, pos) == pos <= Len(Content(s, v)) \/ Content(s, v) = <<>>
AddEvent(s, v, at, id) ==
  LET t == Len(s.eid) + 1
      up == Up(s, v)
  IN [s EXCEPT !.root = SubSeq(@, 1, at - 1) \o <<t>> \o SubSeq(@, at, Len(@)), !.eid = Append(@, id),
      !.views = [i \in DOMAIN @ |-> IF i \in up THEN [@[i] EXCEPT !.c = @ \cup {t}] ELSE @[i]]]

\* the event popped: the one at pos (from 0) among those with the identifier
CanPop(s, v, id, pos) == pos < Len(OfId(s, v, id))
Pop(s, v, id, pos) ==
  LET t == OfId(s, v, id)[pos + 1]
      up == Up(s, v)
  IN [s EXCEPT !.root = SelectSeq(@, LAMBDA x : x # t),
      !.views = [i \in DOMAIN @ |->
                  IF i \in up THEN [@[i] EXCEPT !.c = @ \ {t}]
                  ELSE IF t \in @[i].c THEN [@[i] EXCEPT !.ok = FALSE] ELSE @[i]]]

----------------------------------------------------------------------------
\* laws
TypeOK(s) ==
  /\ ToSet(s.root) \subseteq DOMAIN s.eid
  /\ s.views[1].c = ToSet(s.root) /\ s.views[1].ok
  /\ Cardinality(ToSet(s.root)) = Len(s.root)
\* a view in use holds events of its parent only, and so of the file
Nested(s) ==
  \A v \in DOMAIN s.views : s.views[v].ok =>
    /\ s.views[v].c \subseteq ToSet(s.root)
    /\ s.views[v].p # 0 => s.views[v].c \subseteq s.views[s.views[v].p].c
\* events which stay keep their order
KeepsOrder(s, z) ==
  LET both == ToSet(s.root) \cap ToSet(z.root)
  IN Ordered(s, both) = Ordered(z, both)
=============================================================================
