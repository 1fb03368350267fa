------------------------------- MODULE TreeOps -------------------------------
(* operations of EventTree as records, as they appear in behaviours and     *)
(* traces                                                                   *)
EXTENDS EventTree

Partitions == {"subtree", "separate", "group", "divide", "subtrees"}
\* the views a partition operation yields
Parts(s, o) ==
  CASE o.o = "subtree" -> Subtree(s, o.v, ToSet(o.ids))
    [] o.o = "separate" -> Separate(s, o.v, o.i)
    [] o.o = "group" -> Group(s, o.v, o.ids)
    [] o.o = "divide" -> Divide(s, o.v, o.i, ToSet(o.ids))
    [] o.o = "subtrees" -> Subtrees(s, o.v, o.sel, o.rep)

\* outcome of a mutation: an error or the position / token concerned
Outcome(s, o) ==
  CASE o.o = "insert" -> IF CanInsert(s, o.v, o.pos) THEN "" ELSE "IndexError"
    [] o.o = "append" -> ""
    [] OTHER -> IF OfId(s, o.v, o.i) = <<>> THEN "KeyError"
                ELSE IF CanPop(s, o.v, o.i, o.pos) THEN "" ELSE "IndexError"
\* at: position in the root of an event inserted into an empty view
Mutate(s, o, at) ==
  LET n == Len(Content(s, o.v))
      Ins(pos) == AddEvent(s, o.v, IF n = 0 /\ o.v # 1 THEN at ELSE RootPos(s, o.v, pos), o.i)
  IN IF Outcome(s, o) # "" THEN s
     ELSE CASE o.o = "insert" -> Ins(o.pos)
            [] o.o = "append" -> Ins(n)
            [] OTHER -> Pop(s, o.v, o.i, o.pos)
=============================================================================
