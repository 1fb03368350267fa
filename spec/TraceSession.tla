---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Is every recorded run of the implementation a behaviour of Session?     *)
(* Every line of the trace file is one run: {"t": id, "ops": [...]}.       *)
(* Every run is one initial state; a run ends at its first operation whose *)
(* recorded outcome differs from the specified one, which is printed.      *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, pos

Ops == Traces[tr].ops
Op == Ops[pos]

Fail(clause, want, got) ==
  PrintT("@@" \o ToJson([t |-> Traces[tr].t, step |-> pos, clause |-> clause, want |-> want, got |-> got]))

\* expected value w admits the recorded value g
Admits(w, g) == w = <<16>> \/ w = g

----------------------------------------------------------------------------
Init ==
  /\ tr \in DOMAIN Traces
  /\ pos = 1
  /\ proj = NoProject
  /\ view = <<>>
  /\ disk = <<>>

Stop == pos' = Len(Ops) + 1 /\ UNCHANGED <<proj, view, disk>>
Ahead == pos' = pos + 1

Load(b) == IF "raw" \in DOMAIN Op THEN DoOpenRaw(b) ELSE DoOpen(b)
Open ==
  /\ Op.o = "open"
  /\ \E r \in {OpenFile(Op.b)} :
     LET ok == IF r.err \in {0, ErrHeader, ErrVersion} THEN Op.e = r.err
               ELSE Op.e # 0                \* a damaged event: any error will do
     IN IF ~ok THEN Fail("open", r.err, Op.e) /\ Stop
        ELSE IF r.err # 0 THEN Ahead /\ UNCHANGED <<proj, view, disk>>
        ELSE Load(Op.b) /\ disk' = Op.b /\ Ahead

\* the raw event list: identifier, value, serialised size, serialised bytes
EventList ==
  /\ Op.o = "events"
  /\ LET bad == {i \in DOMAIN Op.l :
           LET e == proj.evs[i] IN
           \/ Op.l[i][1] # e.id
           \* (<<16>>: has parts, rather than a value which is compared here)
           \/ Op.l[i][2] # (IF e.id # PluginDataId THEN EventValue(e, proj.unis[i])
                            ELSE IF proj.pt[i] = "Plugin" THEN <<6>> \o e.data ELSE <<16>>)
           \/ Op.l[i][3] # Len(EventBytes(e))
           \/ Op.l[i][4] # EventBytes(e)}
     IN IF Len(Op.l) # Len(proj.evs) THEN Fail("event count", Len(proj.evs), Len(Op.l)) /\ Stop
        ELSE IF bad # {}
             THEN LET i == Min(bad)
                  IN Fail("event", <<i, proj.evs[i].id, EventValue(proj.evs[i], proj.unis[i])>>, Op.l[i]) /\ Stop
        ELSE DoRead /\ Ahead

\* every model with every attribute
Dump ==
  /\ Op.o = "dump"
  /\ LET ks == SelectSeq(Keys(proj, view), LAMBDA k : k[1] \in ToSet(Op.f))
         L == Op.k
         gotks == [i \in DOMAIN L |-> L[i][1]]
     IN IF ks # gotks THEN Fail("models", ks, gotks) /\ Stop
        ELSE LET BadIn(n, g) == {j \in DOMAIN g : ~Admits(Get(proj, view, n, j), g[j])}
                 Good(n, l) == n.k = l[2] /\ BadIn(n, l[3]) = {}
                 bad == {i \in DOMAIN L : ~Good(Inst(proj, view, L[i][1]), L[i])}
             IN IF bad = {} THEN DoRead /\ Ahead
                ELSE LET i == Min(bad)
                         n == Inst(proj, view, L[i][1])
                     IN IF n.k # L[i][2] THEN Fail("kind", <<L[i][1], n.k>>, L[i][2]) /\ Stop
                        ELSE LET j == Min(BadIn(n, L[i][3]))
                             IN Fail("value " \o n.k \o "." \o AttrTab[n.k][j].a,
                                     <<L[i][1], Get(proj, view, n, j)>>, L[i][3][j]) /\ Stop

GetOne ==
  /\ Op.o = "get"
  /\ LET n == Inst(proj, view, Op.k)
         w == Get(proj, view, n, Op.a)
     IN IF Admits(w, Op.v) THEN DoRead /\ Ahead
        ELSE Fail("get " \o n.k \o "." \o AttrTab[n.k][Op.a].a, <<Op.k, w>>, Op.v) /\ Stop

SetUnsuitable ==
  /\ Op.o = "set" /\ Op.v[1] = 18
  /\ LET n == Inst(proj, view, Op.k)
         at == AttrTab[n.k][Op.a]
     IN IF Op.r # 0 THEN DoRead /\ Ahead
        ELSE IF ~CanHold(proj, view, n, at)
             THEN Fail("set " \o n.k \o "." \o at.a, <<Op.k, Op.v, "refused">>, Op.r) /\ Stop
        ELSE DoPoison(Op.k, Op.a, Op.v) /\ Ahead

SetOne ==
  /\ Op.o = "set" /\ Op.v[1] # 18
  /\ LET n == Inst(proj, view, Op.k)
         r == Set(proj, view, n, Op.a, Op.v)
         nm == "set " \o n.k \o "." \o AttrTab[n.k][Op.a].a
     IN IF r.err = {} /\ Op.r # 0 THEN Fail(nm, <<Op.k, Op.v, 0>>, Op.r) /\ Stop
        ELSE IF r.err # {} /\ r.err # {0} /\ Op.r \notin r.err THEN Fail(nm, <<Op.k, Op.v, r.err>>, Op.r) /\ Stop
        ELSE IF r.err = {0} /\ Op.r # -1 THEN Fail(nm, <<Op.k, Op.v, "no object">>, Op.r) /\ Stop
        ELSE DoAssign(Op.k, Op.a, Op.v) /\ Ahead

\* b: content of the destination after the attempt
SaveOne ==
  /\ Op.o = "save"
  /\ LET w == TLCEval(IF CanSave THEN SaveFile(proj) ELSE disk)
         g == TLCEval(Op.b)
         n == Min({Len(w), Len(g)})
     IN IF CanSave /\ Op.r # 0 THEN Fail("save raises", 0, Op.r) /\ Stop
        ELSE IF ~CanSave /\ Op.r = 0 THEN Fail("save succeeds", proj.px, 0) /\ Stop
        ELSE IF g # w
             THEN LET at == IF SubSeq(w, 1, n) = SubSeq(g, 1, n) THEN n + 1
                            ELSE CHOOSE i \in 1 .. n : w[i] # g[i]
                  IN Fail("saved bytes", <<at - 1, Len(w), SubSeq(w, at, Min({at + 15, Len(w)}))>>,
                          <<Len(g), SubSeq(g, at, Min({at + 15, Len(g)}))>>) /\ Stop
        ELSE DoSave /\ Ahead

Reopen ==
  /\ Op.o = "reopen"
  /\ IF Op.e # 0 THEN Fail("reopen", 0, Op.e) /\ Stop
     ELSE Load(disk) /\ UNCHANGED disk /\ Ahead

\* a look-up in a collection: which member is returned
MemberKey(c, i) ==
  CASE c[1] = FRack -> <<FChannel, i>>
    [] c[1] = FPatterns -> <<FPattern, i>>
    [] c[1] = FArrangements -> <<FArrangement, i>>
    [] c[1] = FMixer -> <<FInsert, i>>
    [] c[1] = FInsert -> <<FSlot, c[2], i>>
AttrVal(key, a) == LET n == Inst(proj, view, key) IN Get(proj, view, n, AttrIndex(n.k, a))
\* number of members of the collection named by key c
Members(c) ==
  LET f == c[1] IN
  CASE f = FRack -> Len(view.ch)
    [] f = FPatterns -> Len(view.pa)
    [] f = FArrangements -> Len(view.ar)
    [] f = FMixer -> Len(view.ins)
    [] f = FInsert -> Len(view.sl[c[2]])
    [] f = FTrack -> Len(view.it[c[2]][c[3]])
    [] f = FChannel -> ToInt(AttrVal(c, "len"))       \* children of a layer
\* by number: rack and layers by internal id, mixer with -1 the first, others from 0
FindInt(c, n) ==
  LET m == Members(c)
      S0 == CASE c[1] = FRack -> {i \in 1 .. m : AttrVal(<<FChannel, i>>, "iid") = IntV(n)}
              [] c[1] = FMixer -> {i \in 1 .. m : i = n + 2}
              [] c[1] = FTrack -> {i \in 1 .. m : i = IF n >= 0 THEN n + 1 ELSE m + n + 1}
              [] OTHER -> {i \in 1 .. m : i = n + 1}
  IN IF S0 = {} THEN Err(IF c[1] = FTrack THEN ErrKey ELSE ErrNotFound) ELSE IntV(Min(S0))
FindName(c, s) ==
  LET a == IF c[1] = FRack THEN "display_name" ELSE "name"
      S0 == {i \in 1 .. Members(c) : AttrVal(MemberKey(c, i), a) = s}
  IN IF S0 = {} THEN Err(ErrNotFound) ELSE IntV(Min(S0))
\* s: <<start, stop, step>>, each <<>> or <<n>>, as Python slices sequences
SliceOf(c, s) ==
  LET m == Members(c)
      step == IF s[3] = <<>> THEN 1 ELSE s[3][1]
      clamp(x) == IF step > 0 THEN Max({0, Min({m, IF x < 0 THEN x + m ELSE x})})
                  ELSE Max({-1, Min({m - 1, IF x < 0 THEN x + m ELSE x})})
      st == IF s[1] = <<>> THEN (IF step > 0 THEN 0 ELSE m - 1) ELSE clamp(s[1][1])
      en == IF s[2] = <<>> THEN (IF step > 0 THEN m ELSE -1) ELSE clamp(s[2][1])
      cnt == IF step > 0 THEN Max({0, (en - st + step - 1) \div step})
             ELSE Max({0, (st - en + (0 - step) - 1) \div (0 - step)})
      kid(i) == IF c[1] = FChannel THEN Tail(AttrVal(c, "children"))[4 * i] ELSE i
  IN IF m = 0 /\ c[1] \in {FRack, FPatterns, FArrangements, FMixer} THEN <<16>>
     ELSE TupleV([i \in 1 .. cnt |-> IntV(kid(st + (i - 1) * step + 1))])
LayerFind(c, n) ==
  LET ch == Tail(AttrVal(c, "children"))
      kids == [i \in 1 .. (Len(ch) \div 4) |-> ch[4 * i]]
      S0 == {i \in DOMAIN kids : ChannelIid(proj, view, kids[i]) = n}
  IN IF S0 = {} THEN Err(ErrNotFound) ELSE IntV(kids[Min(S0)])
Find ==
  /\ Op.o = "find"
  /\ LET w == CASE Op.h = "int" -> FindInt(Op.c, Op.i)
                [] Op.h = "name" -> FindName(Op.c, Op.i)
                [] Op.h = "slice" -> SliceOf(Op.c, Op.i)
                [] Op.h = "layer" -> LayerFind(Op.c, Op.i)
         none == Op.c[1] \in {FRack, FPatterns, FArrangements, FMixer} /\ Members(Op.c) = 0
     IN IF Admits(w, Op.v) \/ (none /\ Op.v \in {Err(ErrNoModels), Err(ErrNotFound)}) THEN DoRead /\ Ahead
        ELSE Fail("find " \o Op.h, <<Op.c, Op.i, w>>, Op.v) /\ Stop

\* two observations of the implementation which must be equal
Same ==
  /\ Op.o = "same"
  /\ IF Op.x = Op.y THEN DoRead /\ Ahead ELSE Fail("same " \o Op.n, Op.x, Op.y) /\ Stop

\* Comparing two models, perhaps one of this project with one of another which
\* holds the same kinds of events (d: those with different values): equal when
\* they show the same events, a type error (-1) when they are of different kinds
Equal ==
  /\ Op.o = "equal"
  /\ LET a == Inst(proj, view, Op.k)
         b == Inst(proj, view, Op.j)
         w == IF a.k # b.k THEN <<-1, -1, -1>>
              ELSE IF a.g = b.g /\ ToSet(a.g) \cap ToSet(Op.d) = {} THEN <<1, 1, 0>> ELSE <<0, 0, 1>>
     IN IF Op.r = w THEN DoRead /\ Ahead
        ELSE Fail("equal " \o a.k, <<Op.k, Op.j, w>>, Op.r) /\ Stop

\* Assigning the plugin of one slot / channel (plugin key s) to another one (key k).
\* The destination gets copies of the events; it needs a place for each of them.
PlugAssign ==
  /\ Op.o = "plug"
  /\ LET far == "x" \in DOMAIN Op                \* a plugin of another project: its kind and events
         evs == proj.evs
         src == IF far THEN [k |-> Op.x[1]] ELSE Inst(proj, view, Op.s)
         host == IF Op.k[1] = FSlot THEN view.sl[Op.k[2]][Op.k[3]] ELSE view.ch[Op.k[2]]
         S(id) == FirstIn(evs, src.g, id)
         From(id) == IF far THEN Op.x[id - 210] ELSE IF S(id) = 0 THEN <<>> ELSE <<evs[S(id)].data>>
         Raw(id) == IF far THEN [id |-> id, data |-> Op.x[id - 210][1]] ELSE proj.raw[S(id)]
         ids == {id \in {212, 213} : FirstIn(evs, host, id) # 0}
         nm == FirstIn(evs, host, 201)
         ok == 213 \in ids /\ (\A id \in ids : From(id) # <<>>) /\ (src.k = "Plugin" \/ nm # 0)
         here(i) == evs[i].id \in ids /\ (\E j \in DOMAIN host : host[j] = i)
         nd == Enc("text", 0, <<5>> \o NameOfKind(src.k), proj.raw[nm].data, proj.uni)
         p1 == [proj EXCEPT !.evs = [i \in DOMAIN evs |-> IF here(i) THEN [evs[i] EXCEPT !.data = From(evs[i].id)[1]] ELSE evs[i]],
                            !.raw = [i \in DOMAIN evs |-> IF here(i) THEN Raw(evs[i].id) ELSE proj.raw[i]],
                            !.pt = [i \in DOMAIN evs |-> IF ~here(i) \/ evs[i].id = 212 THEN proj.pt[i]
                                                         ELSE IF far THEN src.k ELSE proj.pt[S(213)]]]
         p2 == IF src.k = "Plugin" THEN p1 ELSE PutEvent(p1, nm, nd)
     IN IF ok /\ Op.r # 0 THEN Fail("plugin assignment", 0, Op.r) /\ Stop
        ELSE IF ~ok /\ Op.r # ErrCannotSet THEN Fail("plugin assignment", ErrCannotSet, Op.r) /\ Stop
        ELSE IF ~ok THEN DoRead /\ Ahead
        ELSE \E q \in {p2} : \E w \in {View(q)} : proj' = q /\ view' = w /\ UNCHANGED disk /\ Ahead

\* an event is inserted into (how 1) or removed from (how 0) the events of a model,
\* of which v are the positions in the project
Change ==
  /\ Op.o = "change"
  /\ IF Op.r # 0 THEN Fail("change of events", 0, Op.r) /\ Stop
     ELSE IF ToSet(Inst(proj, view, Op.k).g) # ToSet(Op.v)
          THEN Fail("events of a model", <<Op.k, Inst(proj, view, Op.k).g>>, Op.v) /\ Stop
     ELSE /\ Ahead
          /\ IF Op.how = 1 THEN DoInsert(Op.v, Op.n, Op.i, Op.d) ELSE DoRemove(Op.v, Op.i, Op.n)

\* which events every model shows, in their order
ItemFamilies == {FPoint, FNote, FController, FItem}
Shown ==
  /\ Op.o = "shown"
  /\ \E ks \in {SelectSeq(Keys(proj, view), LAMBDA k : k[1] \in ToSet(Op.f) \ ItemFamilies)} :
     \E want \in {[i \in DOMAIN ks |-> <<ks[i], SortSeq(Inst(proj, view, ks[i]).g, <)>>]} :
     \E got \in {Op.k} :
     LET bad == {i \in DOMAIN want : i > Len(got) \/ got[i] # want[i]}
     IN IF want = got THEN DoRead /\ Ahead
        ELSE IF bad # {} THEN Fail("events shown", want[Min(bad)], IF Min(bad) > Len(got) THEN <<>> ELSE got[Min(bad)]) /\ Stop
        ELSE Fail("events shown", Len(want), Len(got)) /\ Stop

\* the members of an enumeration, names without a leading underscore
EnumMembers ==
  /\ Op.o = "enum"
  /\ LET got == ToSet(Op.m)
     IN IF got = EnumTab[Op.n] THEN DoRead /\ Ahead
        ELSE Fail("enumeration " \o Op.n, EnumTab[Op.n] \ got, got \ EnumTab[Op.n]) /\ Stop

Next ==
  /\ pos <= Len(Ops)
  /\ UNCHANGED tr
  /\ Open \/ EventList \/ Dump \/ GetOne \/ SetOne \/ SetUnsuitable \/ SaveOne \/ Reopen \/ Find \/ Same \/ Equal \/ PlugAssign \/ Change \/ Shown \/ EnumMembers

Spec == Init /\ [][Next]_<<proj, view, disk, tr, pos>>
=============================================================================
