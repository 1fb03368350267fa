------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A program using the library: it opens a file, reads and assigns         *)
(* attributes, saves, opens what it saved, and so on. proj is the project  *)
(* in memory (view: its models), disk the content of the destination file. *)
(* Actions are written as operators which compute the next state, so that  *)
(* the same definitions drive model checking and trace validation.         *)
(***************************************************************************)
EXTENDS Models

VARIABLES proj, view, disk

NoProject == [evs |-> <<>>]

\* (x \in {e} makes TLC evaluate e once)
DoOpen(b) ==
  \E r \in {OpenFile(b)} :
     /\ r.err = 0
     /\ \E w \in {View(r.p)} : proj' = r.p /\ view' = w

\* a file of which only the events are looked at
DoOpenRaw(b) ==
  \E r \in {OpenFile(b)} : r.err = 0 /\ proj' = r.p /\ view' = <<>>

DoRead == UNCHANGED <<proj, view, disk>>

\* an assignment either succeeds, or raises and changes nothing
DoAssign(key, ai, v) ==
  \E r \in {Set(proj, view, Inst(proj, view, key), ai, v)} :
  \E w \in {IF r.err = {} THEN View(r.p) ELSE view} :
     /\ proj' = r.p
     /\ view' = w
     /\ UNCHANGED disk

\* a value no attribute can store: refused, or kept until the next save refuses it
DoPoison(key, ai, v) ==
  LET in == Inst(proj, view, key)
  IN /\ CanHold(proj, view, in, AttrTab[in.k][ai])
     /\ proj' = Poison(proj, view, in, ai, v)
     /\ UNCHANGED <<view, disk>>

\* Events of a view on the project (v: its 1-based positions, ascending) are added
\* and removed: a new one comes right before the one which has its position in the
\* view, or right after the last one
Place(v, pos) == IF pos = Len(v) THEN v[Len(v)] + 1 ELSE v[pos + 1]
NthOf(v, id, n) == SelectSeq(v, LAMBDA i : proj.evs[i].id = id)[n + 1]
DoChange(p) == \E q \in {p} : \E w \in {View(q)} : proj' = q /\ view' = w /\ UNCHANGED disk
DoInsert(v, pos, id, data) == DoChange(InsertEvent(proj, Place(v, pos), id, data))
DoRemove(v, id, n) == DoChange(RemoveEvent(proj, NthOf(v, id, n)))

\* a save either writes the whole file, or raises and leaves it alone
CanSave == proj.px = <<>>
DoSave ==
  /\ disk' = IF CanSave THEN SaveFile(proj) ELSE disk
  /\ UNCHANGED <<proj, view>>

----------------------------------------------------------------------------
\* Laws
StoredPart(p) == <<p.fmt, p.chc, p.ppq, p.evs>>
\* what is saved is a well formed container which reads back as the same project
RoundTrip ==
  CanSave => LET r == OpenFile(SaveFile(proj))
             IN r.err = 0 /\ StoredPart(r.p) = StoredPart(proj)
\* the value an attribute reads after v was assigned
Reads(at, c, v) ==
  IF c = "notekey" /\ v[1] = 2
  THEN <<5>> \o NoteNames[(v[3] % 12) + 1] \o Digits(v[3] \div 12)
  ELSE IF c = "enum" /\ v[1] = 2 THEN v
  ELSE IF at.a = "tempo" THEN SubSeq(v, 1, 3)
  ELSE v
=============================================================================
