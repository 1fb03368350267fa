------------------------------ MODULE TraceTree ------------------------------
(* Is every recorded run of EventTree a behaviour of the specification?     *)
EXTENDS TreeOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, tr, pos
vars == <<s, tr, pos>>

Ops == Traces[tr].ops
Op == Ops[pos]
Fail(clause, want, got) ==
  PrintT("@@" \o ToJson([t |-> Traces[tr].t, step |-> pos, clause |-> clause, want |-> want, got |-> got]))

Init == tr \in DOMAIN Traces /\ pos = 1 /\ s = NewTree(<<>>)
Stop == pos' = Len(Ops) + 1 /\ UNCHANGED s
Ahead == pos' = pos + 1

Root == Op.o = "root" /\ s' = NewTree(Op.ids) /\ Ahead

Live(z) == {v \in DOMAIN z.views : z.views[v].ok}
\* what the implementation shows of the trees in use: tokens and root indexes
Shows(z, all) ==
  IF Len(all) # Len(z.views) THEN -1
  ELSE LET bad == {v \in Live(z) :
                     \/ all[v][1] # Content(z, v)
                     \/ all[v][2] # [i \in DOMAIN all[v][1] |-> PosIn(z.root, all[v][1][i]) - 1]}
       IN IF bad = {} THEN 0 ELSE Min(bad)

Partition ==
  /\ Op.o \in Partitions
  /\ LET w == Parts(s, Op)
         lead == IF Op.o = "divide" THEN Lead(s, Op.v, Op.i, ToSet(Op.ids)) ELSE {}
         same == Len(w) = Len(Op.n) /\ \A k \in DOMAIN w :
                   \/ Op.n[k] = w[k]
                   \/ k = 1 /\ Op.n[k] = SelectSeq(w[k], LAMBDA t : t \notin lead)
     IN IF ~same THEN Fail(Op.o, <<Ids(s, Content(s, Op.v)), w>>, Op.n) /\ Stop
        ELSE /\ s' = IF Op.keep = 1 THEN AddViews(s, Op.v, Op.n) ELSE s
             /\ Ahead

Mutation ==
  /\ Op.o \in {"insert", "append", "pop", "remove"}
  /\ LET w == Outcome(s, Op)
         got == Op.all[1][1]                       \* the root afterwards
         new == Len(s.eid) + 1
         at == IF \E i \in DOMAIN got : got[i] = new THEN PosIn(got, new) ELSE 1
         z == Mutate(s, Op, at)
     IN IF Op.r # w THEN Fail(Op.o, w, Op.r) /\ Stop
        ELSE IF Op.o = "pop" /\ w = "" /\ Op.t # OfId(s, Op.v, Op.i)[Op.pos + 1]
             THEN Fail("popped event", OfId(s, Op.v, Op.i)[Op.pos + 1], Op.t) /\ Stop
        ELSE LET b == Shows(z, Op.all)
             IN IF b # 0 THEN Fail("trees after " \o Op.o,
                                   <<s, [v \in DOMAIN z.views |-> Content(z, v)]>>, Op) /\ Stop
                ELSE s' = z /\ Ahead

\* len, count, contains, first, ids, root of a tree and equality with others
Look ==
  /\ Op.o = "look"
  /\ LET q == Content(s, Op.v)
         m == OfId(s, Op.v, Op.i)
         w == <<Len(q), Len(m), IF m = <<>> THEN 0 ELSE 1, IF m = <<>> THEN 0 ELSE m[1],
                SetToSortSeq(ToSet(Ids(s, q)), <), m,
                SelectSeq(q, LAMBDA t : s.eid[t] \in {Op.i, (Op.i % 3) + 1}), 1>>
         \* views are equal exactly when they hold the same events; so is a copy
         eq == {v \in Live(s) : Op.eq[v] # IF Content(s, v) = q THEN <<1, 1, 0>> ELSE <<0, 0, 1>>}
     IN IF Op.x # w THEN Fail("look", w, Op.x) /\ Stop
        ELSE IF eq # {} THEN Fail("equality of views", q, Content(s, Min(eq))) /\ Stop
        ELSE IF Op.eq[Len(Op.eq) - 1] # <<1, 1, 0>> THEN Fail("equality with a copy", q, Op.eq) /\ Stop
        ELSE IF Op.eq[Len(Op.eq)] # (IF q = <<>> THEN <<1, 1, 0>> ELSE <<0, 0, 1>>)
             THEN Fail("equality with other values", q, Op.eq) /\ Stop
        ELSE UNCHANGED s /\ Ahead

\* tokens in the order a save writes them
Save ==
  /\ Op.o = "save"
  /\ IF Op.l # s.root THEN Fail("saved order", s.root, Op.l) /\ Stop ELSE UNCHANGED s /\ Ahead

Same ==
  /\ Op.o = "same"
  /\ IF Op.x = Op.y THEN UNCHANGED s /\ Ahead ELSE Fail("same " \o Op.n, Op.x, Op.y) /\ Stop

Next ==
  /\ pos <= Len(Ops)
  /\ UNCHANGED tr
  /\ Root \/ Partition \/ Mutation \/ Look \/ Save \/ Same

Spec == Init /\ [][Next]_vars
=============================================================================
