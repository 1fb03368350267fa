----------------------------- MODULE TraceEvent -----------------------------
(* Do event and version objects behave as specified in Events?              *)
EXTENDS Events, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, tr, pos
Ops == Traces[tr].ops
Op == Ops[pos]
Fail(clause, want, got) ==
  PrintT("@@" \o ToJson([t |-> Traces[tr].t, step |-> pos, clause |-> clause, want |-> want, got |-> got]))

NoEvent == [c |-> "", i |-> 0, d |-> <<>>]
Init == tr \in DOMAIN Traces /\ pos = 1 /\ ev = NoEvent
Stop == pos' = Len(Ops) + 1 /\ UNCHANGED ev
Ahead == pos' = pos + 1

Make ==
  /\ Op.o = "make"
  /\ LET e == MakeErr(Op.c, Op.i, Op.d)
         w == <<0, ValueOf(Op.c, Op.d), Len(BytesOf(Op.i, Op.d)), BytesOf(Op.i, Op.d)>>
         g == <<Op.e, Op.v, Op.s, Op.b>>
     IN IF e # 0
        THEN IF Op.e # e THEN Fail("making " \o Op.c, <<Op.i, Op.d, e>>, Op.e) /\ Stop
             ELSE ev' = NoEvent /\ Ahead
        ELSE IF g # w THEN Fail("made " \o Op.c, <<Op.i, Op.d, w>>, g) /\ Stop
        ELSE ev' = [c |-> Op.c, i |-> Op.i, d |-> Op.d] /\ Ahead

\* the value of the event made last is assigned; b: bytes or the error
Assign ==
  /\ Op.o = "assign"
  /\ LET d == Assigned(ev.c, ev.d, Op.v)        \* ev.d: the data it was made of
         w == <<BytesOf(ev.i, d), Len(BytesOf(ev.i, d))>>
     IN IF ~Storable(ev.c, Op.v)
        THEN IF Op.e = 0 THEN Fail("serialised", "error", Op.b) /\ Stop ELSE UNCHANGED ev /\ Ahead
        ELSE IF Op.e # 0 THEN Fail("serialising", <<ev, Op.v, 0>>, Op.e) /\ Stop
        ELSE IF <<Op.b, Op.s>> # w THEN Fail("serialised " \o ev.c, <<ev, Op.v, w>>, <<Op.b, Op.s>>) /\ Stop
        ELSE UNCHANGED ev /\ Ahead

Compare ==
  /\ Op.o = "compare"
  /\ LET w == IF Equal(Op.a, Op.z) THEN <<1, 0>> ELSE <<0, 1>>
     IN IF Op.x # w THEN Fail("equality", <<Op.a, Op.z, w>>, Op.x) /\ Stop ELSE UNCHANGED ev /\ Ahead

\* < <= > >= == != of versions, and their text
Versions ==
  /\ Op.o = "versions"
  /\ LET l == Older(Op.a, Op.z)
         g == Older(Op.z, Op.a)
         B(x) == IF x THEN 1 ELSE 0
         w == <<B(l), B(~g), B(g), B(~l), B(~l /\ ~g), B(l \/ g), VText(Op.a), VText(Op.z)>>
     IN IF Op.x # w THEN Fail("versions", <<Op.a, Op.z, w>>, Op.x) /\ Stop ELSE UNCHANGED ev /\ Ahead

\* Components k / 10000 of a colour are stored as the nearest of 256 steps.
Nearest(k, g) == LET d == 2 * (255 * k - 10000 * g) IN d <= 10000 /\ -d <= 10000
Colours ==
  /\ Op.o = "colour"
  /\ IF Len(Op.g) = 4 /\ (\A i \in 1 .. 4 : Op.g[i] \in 0 .. 255 /\ Nearest(Op.k[i], Op.g[i]))
     THEN UNCHANGED ev /\ Ahead ELSE Fail("colour", Op.k, Op.g) /\ Stop

Same ==
  /\ Op.o = "same"
  /\ IF Op.x = Op.y THEN UNCHANGED ev /\ Ahead ELSE Fail("same " \o Op.n, Op.x, Op.y) /\ Stop

Next == pos <= Len(Ops) /\ UNCHANGED tr /\ (Make \/ Assign \/ Compare \/ Versions \/ Colours \/ Same)
Spec == Init /\ [][Next]_<<ev, tr, pos>>
=============================================================================
