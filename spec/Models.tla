------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* The models a parsed project presents: which events belong to which      *)
(* channel, pattern, arrangement, track, insert, slot, plugin ..., and the *)
(* meaning of reading and assigning one of their attributes.               *)
(*                                                                         *)
(* A parsed project:                                                       *)
(*   fmt, chc, ppq  header fields       evs  events <<[id, data]...>>      *)
(*   uni  whether text is UTF-16        pt   kind of every plugin data event *)
(*   px   assigned values which cannot be stored <<[key, ai, v]...>>       *)
(*                                                                         *)
(* A model instance is named by a key, a sequence of numbers whose head is *)
(* one of the families below and whose tail are 1-based indexes.           *)
(***************************************************************************)
EXTENDS Schema

FProject == 1      FRack == 2        FChannel == 3     FGroup == 4
FPoint == 5        FChPlugin == 6    FPatterns == 7    FPattern == 8
FNote == 9         FController == 10 FPatMarker == 11  FArrangements == 12
FArrangement == 13 FTrack == 14      FItem == 15       FArrMarker == 16
FMixer == 17       FInsert == 18     FSlot == 19       FSlotPlugin == 20
FRemote == 21

PluginNames == <<
  [k |-> "VSTPlugin", n |-> <<70, 114, 117, 105, 116, 121, 32, 87, 114, 97, 112, 112, 101, 114>>],
  [k |-> "BooBass", n |-> <<66, 111, 111, 66, 97, 115, 115>>],
  [k |-> "FruitKick", n |-> <<70, 114, 117, 105, 116, 32, 75, 105, 99, 107>>],
  [k |-> "FruityBalance", n |-> <<70, 114, 117, 105, 116, 121, 32, 66, 97, 108, 97, 110, 99, 101>>],
  [k |-> "FruityBloodOverdrive", n |-> <<70, 114, 117, 105, 116, 121, 32, 66, 108, 111, 111, 100, 32, 79, 118, 101, 114, 100, 114, 105, 118, 101>>],
  [k |-> "FruityCenter", n |-> <<70, 114, 117, 105, 116, 121, 32, 67, 101, 110, 116, 101, 114>>],
  [k |-> "FruityFastDist", n |-> <<70, 114, 117, 105, 116, 121, 32, 70, 97, 115, 116, 32, 68, 105, 115, 116>>],
  [k |-> "FruityNotebook2", n |-> <<70, 114, 117, 105, 116, 121, 32, 78, 111, 116, 101, 66, 111, 111, 107, 32, 50>>],
  [k |-> "FruitySend", n |-> <<70, 114, 117, 105, 116, 121, 32, 83, 101, 110, 100>>],
  [k |-> "FruitySoftClipper", n |-> <<70, 114, 117, 105, 116, 121, 32, 83, 111, 102, 116, 32, 67, 108, 105, 112, 112, 101, 114>>],
  [k |-> "FruityStereoEnhancer", n |-> <<70, 114, 117, 105, 116, 121, 32, 83, 116, 101, 114, 101, 111, 32, 69, 110, 104, 97, 110, 99, 101, 114>>],
  [k |-> "Plucked", n |-> <<80, 108, 117, 99, 107, 101, 100, 33>>],
  [k |-> "Soundgoodizer", n |-> <<83, 111, 117, 110, 100, 103, 111, 111, 100, 105, 122, 101, 114>>] >>
ChannelPlugins == {"VSTPlugin", "BooBass", "FruitKick", "Plucked"}
SlotPlugins == {"VSTPlugin", "FruityBalance", "FruityBloodOverdrive", "FruityCenter",
  "FruityFastDist", "FruityNotebook2", "FruitySend", "FruitySoftClipper",
  "FruityStereoEnhancer", "Soundgoodizer"}
KindOfName(cps) ==
  LET S0 == {i \in DOMAIN PluginNames : PluginNames[i].n = cps}
  IN IF S0 = {} THEN "Plugin" ELSE PluginNames[CHOOSE i \in S0 : TRUE].k
NameOfKind(k) == PluginNames[CHOOSE i \in DOMAIN PluginNames : PluginNames[i].k = k].n

PluginIds == {128, 155, 201, 203, 212, 213}
ChannelIds == {0, 2, 3, 15, 20, 21, 22, 32, 64, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89,
  94, 97, 131, 132, 135, 138, 139, 140, 142, 143, 144, 145, 153, 192, 196, 209, 215, 218, 219,
  221, 228, 229, 234}
RackIds == {11, 13, 133}
PatternIds == {26, 65, 150, 193, 160, 161, 162, 164, 223, 224}
PatternsIds == {30, 67}
MarkerIds == {33, 34, 148, 205}
ArrangementIds == {99, 241, 233}
ArrangementsIds == {17, 18, 100, 152, 217}
TrackIds == {238, 239}
InsertIds == {95, 147, 149, 154, 204, 235, 236}
MixerIds == {29, 225}
SlotIds == {98}

----------------------------------------------------------------------------
\* Parsing: the kind of a plugin data event is decided by the last internal
\* name which precedes it in the file.
PluginTypes(evs, unis) ==
  [p \in DOMAIN evs |->
     IF evs[p].id # PluginDataId THEN ""
     ELSE LET S0 == {q \in 1 .. p : evs[q].id = InternalNameId}
          IN IF S0 = {} THEN "Plugin"
             ELSE LET q == Max(S0) IN KindOfName(Tail(EventValue(evs[q], unis[q])))]

\* a value which no attribute can store (<<18, n>>) reads as it likes to
PoisonV(v) == IF v[1] = 18 THEN <<16>> ELSE v

Project0(fmt, chc, ppq, evs) ==
  LET uni == IsUnicode(evs)
      unis == TLCEval(Unicodes(evs))
  IN [fmt |-> fmt, chc |-> chc, ppq |-> ppq, evs |-> evs, raw |-> evs, uni |-> uni,
      unis |-> unis, pt |-> PluginTypes(evs, unis), px |-> <<>>]

OpenFile(b) ==
  LET r == ReadFile(b)
  IN IF r.err # 0 THEN r
     ELSE [err |-> 0, p |-> Project0(r.fmt, r.chc, r.ppq, r.evs)]

SaveFile(p) == WriteFile(p.fmt, p.chc, p.ppq, p.evs)
----------------------------------------------------------------------------
\* Grouping. All functions take and return sequences of positions in evs.
Ixs(evs) == [i \in 1 .. Len(evs) |-> i]
Sel(evs, T) == SelectSeq(Ixs(evs), LAMBDA q : evs[q].id \in T)
SelIn(evs, s, T) == SelectSeq(s, LAMBDA q : evs[q].id \in T)
FirstPos(evs, T) == LET s == Sel(evs, T) IN IF s = <<>> THEN Len(evs) + 1 ELSE s[1]

\* groups beginning with sep; what precedes the first one belongs to it
SplitAt(evs, s, sep) ==
  LET st == TLCEval(SelectSeq(Ixs(s), LAMBDA i : evs[s[i]].id = sep))
  IN [i \in 1 .. Len(st) |->
       SubSeq(s, IF i = 1 THEN 1 ELSE st[i], IF i = Len(st) THEN Len(s) ELSE st[i + 1] - 1)]
\* groups ending with sep; what follows the last one is a group, too
CutAfter(evs, s, sep) ==
  LET en == TLCEval(SelectSeq(Ixs(s), LAMBDA i : evs[s[i]].id = sep))
      m == Len(en)
      rest == SubSeq(s, IF m = 0 THEN 1 ELSE en[m] + 1, Len(s))
  IN [i \in 1 .. m |-> SubSeq(s, IF i = 1 THEN 1 ELSE en[i - 1] + 1, en[i])]
     \o (IF rest = <<>> THEN <<>> ELSE <<rest>>)

RackEvents(evs) ==
  LET fx == FirstPos(evs, {236})
  IN SelectSeq(Ixs(evs), LAMBDA q : \/ evs[q].id \in ChannelIds \cup RackIds \cup {231}
                                    \/ evs[q].id \in PluginIds /\ q < fx)
Channels(evs) ==
  SplitAt(evs, SelIn(evs, RackEvents(evs), ChannelIds \cup PluginIds), 64)

\* order of the first occurrence of every pattern id
PatternsEvents(evs) ==
  LET a1 == FirstPos(evs, {99})
  IN SelectSeq(Ixs(evs), LAMBDA q : \/ evs[q].id \in PatternIds \cup PatternsIds
                                    \/ evs[q].id \in MarkerIds /\ q < a1)
U16Of(e) == U16At(e.data, 0)
PatternGroups(evs) ==
  LET s == SelIn(evs, PatternsEvents(evs), PatternIds \cup MarkerIds)
      st == TLCEval(SelectSeq(Ixs(s), LAMBDA i : evs[s[i]].id = 65))
      n1 == IF st = <<>> THEN Len(s) ELSE st[1] - 1
      \* the sections: one per announcement, after what precedes the first
      sec == TLCEval((IF n1 = 0 THEN <<>> ELSE << [iid |-> 0, g |-> SubSeq(s, 1, n1)] >>)
        \o [i \in DOMAIN st |-> [iid |-> U16Of(evs[s[st[i]]]),
             g |-> SubSeq(s, st[i], IF i = Len(st) THEN Len(s) ELSE st[i + 1] - 1)]])
      firsts == TLCEval(SelectSeq(Ixs(sec), LAMBDA i : \A j \in 1 .. (i - 1) : sec[j].iid # sec[i].iid))
  IN [n \in DOMAIN firsts |->
       LET mine == SelectSeq(sec, LAMBDA x : x.iid = sec[firsts[n]].iid)
       IN Flat([i \in DOMAIN mine |-> mine[i].g])]

ArrangementsEvents(evs) ==
  LET a1 == FirstPos(evs, {99})
  IN SelectSeq(Ixs(evs), LAMBDA q : \/ evs[q].id \in ArrangementIds \cup ArrangementsIds \cup TrackIds
                                    \/ evs[q].id \in MarkerIds /\ q > a1)
ArrangementGroups(evs) ==
  LET cur == FirstPos(evs, {100})
      s == SelectSeq(SelIn(evs, ArrangementsEvents(evs), ArrangementIds \cup TrackIds \cup MarkerIds),
                     LAMBDA q : q < cur \/ FirstPos(evs, {99}) > cur)
  IN SplitAt(evs, s, 99)
TrackGroups(evs, g) == SplitAt(evs, SelIn(evs, g, TrackIds), 238)

MixerEvents(evs) ==
  LET m1 == FirstPos(evs, MixerIds \cup InsertIds \cup SlotIds)
  IN SelectSeq(Ixs(evs), LAMBDA q : \/ evs[q].id \in MixerIds \cup InsertIds \cup SlotIds
                                    \/ evs[q].id \in PluginIds /\ q > m1)
InsertGroups(evs) ==
  CutAfter(evs, SelIn(evs, MixerEvents(evs), InsertIds \cup SlotIds \cup PluginIds), 147)
SlotGroups(evs, g) == CutAfter(evs, SelIn(evs, g, SlotIds \cup PluginIds), 98)

\* the j-th marker has the j-th event of every marker id
MarkerGroups(evs, g) ==
  LET by(id) == SelIn(evs, g, {id})
      n == Max({0} \cup {Len(by(id)) : id \in MarkerIds})
      nth(id, j) == IF j <= Len(by(id)) THEN <<by(id)[j]>> ELSE <<>>
  IN [j \in 1 .. n |-> nth(33, j) \o nth(34, j) \o nth(148, j) \o nth(205, j)]

----------------------------------------------------------------------------
FirstIn(evs, g, id) == LET s == SelIn(evs, g, {id}) IN IF s = <<>> THEN 0 ELSE s[1]
NthIn(evs, g, id, n) == LET s == SelIn(evs, g, {id}) IN IF n > Len(s) THEN 0 ELSE s[n]

ChannelKind(p, g) ==
  LET t == FirstIn(p.evs, g, 21)
      ty == p.evs[t].data[1]
      nm == FirstIn(p.evs, g, 201)
      sm == FirstIn(p.evs, g, 196)
  IN CASE ty = 0 -> "Sampler"
       [] ty = 3 -> "Layer"
       [] ty = 5 -> "Automation"
       [] ty \in {2, 4} ->
            IF nm # 0 /\ sm # 0 /\ EventValue(p.evs[nm], p.uni) = <<5>> THEN "Sampler" ELSE "Instrument"
       [] OTHER -> "Channel"

\* kind of the plugin of a channel / slot, "" if there is none
PluginKind(p, g, allowed) ==
  LET d == FirstIn(p.evs, g, PluginDataId)
  IN IF d = 0 THEN ""
     ELSE IF p.pt[d] = "Plugin" \/ p.pt[d] \in allowed THEN p.pt[d]
     ELSE ""

ItemSize(n) == IF n % 60 = 0 THEN 60 ELSE 32
\* items of a playlist event on the 0-based track t, as 1-based item numbers
TrackItems(p, g, t) ==
  LET d == FirstIn(p.evs, g, 233)
      b == p.evs[d].data
      sz == ItemSize(Len(b))
      last == IF VerGeq(FullVersion(p.evs), <<12, 9, 1>>) THEN 499 ELSE 198
  IN IF d = 0 THEN <<>>
     ELSE SelectSeq([i \in 1 .. (Len(b) \div sz) |-> i],
                    LAMBDA i : last - U16At(b, (i - 1) * sz + 12) = t)

View(p) ==
  LET evs == p.evs
      ch == Channels(evs)
      pa == PatternGroups(evs)
      ar == ArrangementGroups(evs)
      tr == [i \in DOMAIN ar |-> TrackGroups(evs, ar[i])]
      ins == InsertGroups(evs)
      sl == [i \in DOMAIN ins |-> SlotGroups(evs, ins[i])]
  IN [ rack |-> RackEvents(evs), ch |-> ch, ck |-> [i \in DOMAIN ch |-> ChannelKind(p, ch[i])],
       cp |-> [i \in DOMAIN ch |-> IF ChannelKind(p, ch[i]) = "Instrument"
                                   THEN PluginKind(p, ch[i], ChannelPlugins) ELSE ""],
       gr |-> Sel(evs, {231}),
       pall |-> PatternsEvents(evs), pa |-> pa, pm |-> [i \in DOMAIN pa |-> MarkerGroups(evs, pa[i])],
       aall |-> ArrangementsEvents(evs), ar |-> ar, am |-> [i \in DOMAIN ar |-> MarkerGroups(evs, ar[i])],
       tr |-> tr,
       it |-> [i \in DOMAIN ar |-> [j \in DOMAIN tr[i] |-> TrackItems(p, ar[i], j - 1)]],
       mall |-> MixerEvents(evs), ins |-> ins, sl |-> sl,
       sp |-> [i \in DOMAIN sl |-> [j \in DOMAIN sl[i] |-> PluginKind(p, sl[i][j], SlotPlugins)]],
       rc |-> Sel(evs, {227}) ]

\* number of fixed size records in the first event with that id in g
Count(p, g, id, hd, sz) ==
  LET d == FirstIn(p.evs, g, id) IN IF d = 0 THEN 0 ELSE (Len(p.evs[d].data) - hd) \div sz
PointCount(p, g) ==
  LET d == FirstIn(p.evs, g, 234) IN IF d = 0 THEN 0 ELSE Len32(p.evs[d].data, 17)

Keys(p, V) ==
  LET Each(n, F(_)) == Flat([i \in 1 .. n |-> F(i)])
      chan(i) == << <<FChannel, i>> >>
         \o (IF V.ck[i] = "Automation"
             THEN [j \in 1 .. PointCount(p, V.ch[i]) |-> <<FPoint, i, j>>] ELSE <<>>)
         \o (IF V.cp[i] = "" THEN <<>> ELSE << <<FChPlugin, i>> >>)
      pat(i) == << <<FPattern, i>> >>
         \o [j \in 1 .. Count(p, V.pa[i], 224, 0, 24) |-> <<FNote, i, j>>]
         \o [j \in 1 .. Count(p, V.pa[i], 223, 0, 12) |-> <<FController, i, j>>]
         \o [j \in DOMAIN V.pm[i] |-> <<FPatMarker, i, j>>]
      arr(i) == << <<FArrangement, i>> >>
         \o [j \in DOMAIN V.am[i] |-> <<FArrMarker, i, j>>]
         \o Each(Len(V.tr[i]), LAMBDA j : << <<FTrack, i, j>> >>
              \o [l \in DOMAIN V.it[i][j] |-> <<FItem, i, j, l>>])
      ins(i) == << <<FInsert, i>> >>
         \o Each(Len(V.sl[i]), LAMBDA j : << <<FSlot, i, j>> >>
              \o (IF V.sp[i][j] = "" THEN <<>> ELSE << <<FSlotPlugin, i, j>> >>))
  IN << <<FProject>>, <<FRack>> >> \o [i \in DOMAIN V.gr |-> <<FGroup, i>>]
     \o Each(Len(V.ch), chan) \o << <<FPatterns>> >> \o Each(Len(V.pa), pat)
     \o << <<FArrangements>> >> \o Each(Len(V.ar), arr)
     \o << <<FMixer>> >> \o Each(Len(V.ins), ins)
     \o [i \in DOMAIN V.rc |-> <<FRemote, i>>]

----------------------------------------------------------------------------
\* An instance: kind, group of events, list item <<event, offset>>, the key
Inst(p, V, key) ==
  LET f == key[1]
      evs == p.evs
      R(k, g) == [k |-> k, g |-> g, e |-> 0, o |-> 0, key |-> key]
      RI(k, g, e, o) == [k |-> k, g |-> g, e |-> e, o |-> o, key |-> key]
      All == Ixs(evs)
  IN CASE f = FProject -> R("Project", All)
       [] f = FRack -> R("Rack", V.rack)
       [] f = FGroup -> R("Group", <<V.gr[key[2]]>>)
       [] f = FChannel -> R(V.ck[key[2]], V.ch[key[2]])
       [] f = FPoint -> RI("Point", V.ch[key[2]], FirstIn(evs, V.ch[key[2]], 234), 21 + 24 * (key[3] - 1))
       [] f = FChPlugin -> R(V.cp[key[2]], SelIn(evs, V.ch[key[2]], {212, 213}))
       [] f = FPatterns -> R("Patterns", V.pall)
       [] f = FPattern -> R("Pattern", V.pa[key[2]])
       [] f = FNote -> RI("Note", V.pa[key[2]], FirstIn(evs, V.pa[key[2]], 224), 24 * (key[3] - 1))
       [] f = FController -> RI("Controller", V.pa[key[2]], FirstIn(evs, V.pa[key[2]], 223), 12 * (key[3] - 1))
       [] f = FPatMarker -> R("Marker", V.pm[key[2]][key[3]])
       [] f = FArrangements -> R("Arrangements", V.aall)
       [] f = FArrangement -> R("Arrangement", V.ar[key[2]])
       [] f = FArrMarker -> R("Marker", V.am[key[2]][key[3]])
       [] f = FTrack -> R("Track", V.tr[key[2]][key[3]])
       [] f = FItem -> LET e == FirstIn(evs, V.ar[key[2]], 233)
                           b == evs[e].data
                           o == (V.it[key[2]][key[3]][key[4]] - 1) * ItemSize(Len(b))
                       IN RI(IF U16At(b, o + 6) <= U16At(b, o + 4) THEN "ChannelItem" ELSE "PatternItem",
                             V.ar[key[2]], e, o)
       [] f = FMixer -> R("Mixer", V.mall)
       [] f = FInsert -> R("Insert", V.ins[key[2]])
       [] f = FSlot -> R("Slot", V.sl[key[2]][key[3]])
       [] f = FSlotPlugin -> R(V.sp[key[2]][key[3]], SelIn(evs, V.sl[key[2]][key[3]], {212, 213}))
       [] f = FRemote -> R("Remote", <<V.rc[key[2]]>>)

\* offset of the data and length of a record of a VST payload; <<0, -1>>: absent
RECURSIVE VSTRec(_, _, _)
VSTRec(b, o, id) ==
  IF o + 12 > Len(b) THEN <<0, -1>>
  ELSE LET n == Len32(b, o + 4)
       IN IF b[o + 1] = id THEN <<o + 12, n>> ELSE VSTRec(b, o + 12 + n, id)

\* 0-based number of the last mixer parameter record of an insert (and slot), -1: absent
ParamRec(b, id, ins, slot) ==
  LET S0 == {r \in 0 .. ((Len(b) \div 12) - 1) :
              /\ b[r * 12 + 5] = id
              /\ (U16At(b, r * 12 + 6) \div 64) % 128 = ins
              /\ (slot < 0 \/ U16At(b, r * 12 + 6) % 64 = slot)}
  IN IF S0 = {} THEN -1 ELSE Max(S0)

\* Where an attribute alternative is stored: <<event, offset, size>>;
\* event 0: no such event, size -1: the event has no such field
LocAlt(p, V, in, alt) ==
  LET e == IF in.e # 0 THEN in.e
           ELSE IF alt.id = 225 THEN FirstIn(p.evs, V.mall, 225)
           ELSE NthIn(p.evs, in.g, alt.id, alt.nth)
      b == p.evs[e].data
      n == Len(b)
      Field(base, lim, off, c) ==
        IF off < 0 THEN <<e, base, lim>>
        ELSE IF off + Size(c) > lim THEN <<e, 0, -1>> ELSE <<e, base + off, Size(c)>>
  IN IF e = 0 THEN <<0, 0, -1>>
     ELSE IF in.e # 0 THEN <<e, in.o + alt.off, Size(alt.c)>>
     ELSE IF alt.id = 225
          THEN LET r == ParamRec(b, alt.sub, in.key[2] - 1,
                                 IF in.key[1] = FSlot THEN in.key[3] - 1 ELSE -1)
               IN IF r < 0 THEN <<0, 0, -1>> ELSE <<e, r * 12 + 8, 4>>
     ELSE IF alt.sub # 0
          THEN LET r == VSTRec(b, 4, alt.sub)
               IN IF r[2] < 0 THEN <<0, 0, -1>> ELSE Field(r[1], r[2], alt.off, alt.c)
     ELSE IF alt.hd # 0 /\ n = alt.hd THEN Field(4, n - 4, alt.off, alt.c)
     ELSE Field(0, n, alt.off, alt.c)

\* <<alternative number, event, offset, size>>, alternative 0: none
Loc(p, V, in, at) ==
  LET ls == [i \in DOMAIN at.alts |-> LocAlt(p, V, in, at.alts[i])]
      S0 == {i \in DOMAIN ls : ls[i][1] # 0}
  IN IF S0 = {} THEN <<0, 0, 0, -1>>
     ELSE LET i == Min(S0) IN <<i>> \o ls[i]

----------------------------------------------------------------------------
\* Special attributes
TupleV(vs) == <<7>> \o Flat([i \in DOMAIN vs |-> <<Len(vs[i])>> \o vs[i]])
Milli(hi, lo) == <<15, hi, lo>>
\* a * 1000 + b as hi/lo, 0 <= a < 65536
MilliOf(a, b) == LET t == (a % 2048) * 1000 + b
                     u == (a \div 2048) * 1000 * 2048
                     s == t + u
                 IN Milli(s \div 65536, s % 65536)
EventV(p, g, id, df) ==
  LET e == FirstIn(p.evs, g, id) IN IF e = 0 THEN df ELSE EventValue(p.evs[e], p.uni)

VersionV(p) ==
  LET vp == Version(p.evs)
      q == [i \in 1 .. (IF Len(vp) > 3 THEN 4 ELSE 3) |-> IF i <= Len(vp) THEN vp[i] ELSE 0]
  IN <<5>> \o Digits(q[1]) \o <<46>> \o Digits(q[2]) \o <<46>> \o Digits(q[3])
     \o (IF Len(q) = 4 THEN <<46>> \o Digits(q[4]) ELSE <<>>)

ChannelIid(p, V, i) == U16Of(p.evs[FirstIn(p.evs, V.ch[i], 64)])
PatternIid(p, V, i) == U16Of(p.evs[FirstIn(p.evs, V.pa[i], 65)])
LastWith(n, F(_)) == LET S0 == {i \in 1 .. n : F(i)} IN IF S0 = {} THEN 0 ELSE Max(S0)
FirstWith(n, F(_)) == LET S0 == {i \in 1 .. n : F(i)} IN IF S0 = {} THEN 0 ELSE Min(S0)
ChannelOfIid(p, V, iid) == LastWith(Len(V.ch), LAMBDA i : ChannelIid(p, V, i) = iid)
PatternOfIid(p, V, iid) == LastWith(Len(V.pa), LAMBDA i : PatternIid(p, V, i) = iid)

AttrOf(k, a) == AttrTab[k][AttrIndex(k, a)]
\* plain value of an attribute
PlainGet(p, V, in, at) ==
  LET l == Loc(p, V, in, at)
      alt == at.alts[l[1]]
      b == p.evs[l[2]].data
  IN IF l[1] = 0 THEN at.df
     ELSE IF l[4] < 0
          THEN IF alt.c = "loop32"
               THEN Pair(IF Len(b) >= 4 THEN DecU32(Slice(b, 0, 4)) ELSE None, None)
               ELSE None
     ELSE Dec(alt.c, alt.x, Slice(b, l[3], l[4]), p.uni)

\* Notebook pages from 0-based offset o: << <<index value, text bytes>>, ... >>, end
RECURSIVE NotePages(_, _, _)
NotePages(b, o, acc) ==
  IF Slice(b, o, 4) = <<255, 255, 255, 255>> THEN <<acc, o>>
  ELSE LET vi == VarIntAt(b, o + 4)
           st == o + 4 + vi[2]
       IN NotePages(b, st + 2 * vi[1], Append(acc, <<DecI32(Slice(b, o, 4)), Slice(b, st, 2 * vi[1])>>))

\* FL Studio's mixer sizes; versions before the next milestone
Pad3(v) == IF Len(v) >= 3 THEN v ELSE v \o [i \in 1 .. 3 - Len(v) |-> 0]
MaxInserts(w) ==
  LET v == Pad3(w) IN
  IF VerLess(v, <<1, 6, 5>>) THEN 5
  ELSE IF VerLess(v, <<2, 0, 1>>) THEN 8
  ELSE IF VerLess(v, <<3, 0, 0>>) THEN 18
  ELSE IF VerLess(v, <<3, 3, 0>>) THEN 20
  ELSE IF VerLess(v, <<4, 0, 0>>) THEN 64
  ELSE IF VerLess(v, <<9, 0, 0>>) THEN 105
  ELSE 127
SpGet(p, V, in, at) ==
  LET a == at.a
      k == in.k
      key == in.key
      Ixs2(n, F(_)) == TupleV(LET s == TLCEval(SelectSeq([i \in 1 .. n |-> i], F)) IN [i \in DOMAIN s |-> IntV(s[i])])
  IN CASE a = "tempo" ->
            LET t == FirstIn(p.evs, in.g, 156)
                c == FirstIn(p.evs, in.g, 66)
                f == FirstIn(p.evs, in.g, 93)
            IN IF t # 0 THEN <<15>> \o Tail(DecU32(p.evs[t].data))
               ELSE IF c = 0 THEN None
               ELSE MilliOf(U16Of(p.evs[c]), IF f = 0 THEN 0 ELSE U16Of(p.evs[f]))
       [] a = "version" -> VersionV(p)
       [] a = "channel_count" -> IntV(p.chc)
       [] a = "ppq" -> IntV(p.ppq)
       [] a = "format" -> IntV(p.fmt)
       [] a = "len" ->
            (CASE k = "Rack" -> IF V.ch = <<>> THEN Err(ErrNoModels) ELSE IntV(Len(V.ch))
               [] k = "Patterns" -> IF V.pa = <<>> THEN Err(ErrNoModels) ELSE IntV(Len(V.pa))
               [] k = "Arrangements" -> IF V.ar = <<>> THEN Err(ErrNoModels) ELSE IntV(Len(V.ar))
               [] k = "Mixer" -> IF V.ins = <<>> THEN Err(ErrNoModels) ELSE IntV(Len(V.ins))
               [] k = "Insert" -> IntV(Len(V.sl[key[2]]))
               [] k = "Track" -> IntV(Len(V.it[key[2]][key[3]]))
               [] k = "Layer" -> IntV(Len(SelIn(p.evs, in.g, {94}))))
       [] a = "automations" -> Ixs2(Len(V.ch), LAMBDA i : V.ck[i] = "Automation")
       [] a = "instruments" -> Ixs2(Len(V.ch), LAMBDA i : V.ck[i] = "Instrument")
       [] a = "layers" -> Ixs2(Len(V.ch), LAMBDA i : V.ck[i] = "Layer")
       [] a = "samplers" -> Ixs2(Len(V.ch), LAMBDA i : V.ck[i] = "Sampler")
       [] a = "display_name" ->
            LET Shown(n) == LET bad == {i \in DOMAIN p.px : p.px[i].key = in.key /\ AttrTab[k][p.px[i].ai].a = n}
                            IN IF bad # {} THEN PoisonV(p.px[CHOOSE i \in bad : TRUE].v)
                               ELSE PlainGet(p, V, in, AttrOf("Channel", n))
                nm == Shown("name")
            IN IF nm \in {None, <<5>>} THEN Shown("internal_name") ELSE nm
       [] a = "group" -> IntV(ToInt(EventV(p, in.g, 145, None)) + 1)
       [] a = "children" ->
            LET cs == SelIn(p.evs, in.g, {94})
            IN TupleV([i \in DOMAIN cs |-> IntV(ChannelOfIid(p, V, U16Of(p.evs[cs[i]])))])
       [] a = "position" ->        \* of an automation point: sum of the offsets
            LET b == p.evs[in.e].data
            IN DyadicVal(FoldLeft(LAMBDA x, y : x + y, 0,
                 [j \in 1 .. key[3] |-> DyadicF64(Slice(b, 21 + 24 * (j - 1), 8), 5)]), 5)
       [] a = "current" /\ k = "Patterns" ->
            LET v == EventV(p, in.g, 67, None)
                i == FirstWith(Len(V.pa), LAMBDA j : PatternIid(p, V, j) = ToInt(v))
            IN IF v = None THEN None ELSE IF i = 0 THEN None ELSE IntV(i)
       [] a = "current" /\ k = "Arrangements" ->
            LET v == EventV(p, in.g, 100, None)
            IN IF v = None THEN None
               ELSE IF V.ar = <<>> THEN Err(ErrNoModels)
               ELSE IF ToInt(v) >= Len(V.ar) THEN Err(ErrNotFound) ELSE IntV(ToInt(v) + 1)
       [] a = "max_tracks" -> IntV(IF VerGeq(FullVersion(p.evs), <<12, 9, 1>>) THEN 500 ELSE 199)
       [] a = "max_inserts" -> IntV(MaxInserts(Version(p.evs)))
       [] a = "max_slots" -> IntV(LET v == Pad3(Version(p.evs))
                                  IN IF VerLess(v, <<1, 6, 5>>) THEN 4
                                     ELSE IF VerLess(v, <<3, 0, 0>>) THEN 8 ELSE 10)
       [] a = "iid" /\ k = "Pattern" -> EventV(p, in.g, 65, Err(ErrKey))
       [] a = "channel" -> IntV(ChannelOfIid(p, V, U16At(p.evs[in.e].data, in.o + 6)))
       [] a = "pattern" -> IntV(PatternOfIid(p, V, U16At(p.evs[in.e].data, in.o + 6)
                                                   - U16At(p.evs[in.e].data, in.o + 4)))
       [] a = "iid" /\ k = "Insert" -> IntV(key[2] - 2)
       [] a = "dock" ->
            LET e == FirstIn(p.evs, in.g, 236)
                b == p.evs[e].data
            IN IF e = 0 THEN None ELSE IF Len(b) < 8 THEN None
               ELSE IF GetBit(Slice(b, 4, 4), 6) = 1 THEN IntV(2)
               ELSE IF GetBit(Slice(b, 4, 4), 7) = 1 THEN IntV(3) ELSE IntV(1)
       [] a = "routes" ->
            LET e == FirstIn(p.evs, in.g, 235)
                q == FirstIn(p.evs, V.mall, 225)
                fl == p.evs[e].data
                on == SelectSeq([i \in 1 .. Len(fl) |-> i],
                        LAMBDA i : fl[i] # 0 /\ ParamRec(p.evs[q].data, 63 + i, key[2] - 1, -1) >= 0)
            IN IF e = 0 \/ q = 0 THEN <<7>>
               ELSE TupleV([i \in DOMAIN on |->
                      DecI32(Slice(p.evs[q].data, ParamRec(p.evs[q].data, 63 + on[i], key[2] - 1, -1) * 12 + 8, 4))])
       [] a = "pages" ->
            LET b == p.evs[FirstIn(p.evs, in.g, 213)].data
                pg == NotePages(b, 8, <<>>)[1]
            IN TupleV([i \in DOMAIN pg |-> Pair(pg[i][1], <<5>> \o Utf16Dec(pg[i][2]))])
       [] a = "editable" -> LET b == p.evs[FirstIn(p.evs, in.g, 213)].data
                            IN Bool(b[NotePages(b, 8, <<>>)[2] + 5] # 0)
       [] a \in {"parameter", "controls_vst"} ->
            LET b == p.evs[in.g[1]].data
                v == U16At(b, 4)
            IN IF Len(b) < 6 THEN None
               ELSE IF a = "parameter" THEN IntV(v % 32768) ELSE Bool(v >= 32768)
       [] OTHER -> <<16>>

\* two names of the same stored field
SameField(p, V, in, i, j) ==
  \/ i = j
  \/ LET a == AttrTab[in.k][i]
         b == AttrTab[in.k][j]
     IN ~a.sp /\ ~b.sp /\ a.alts = b.alts
Get(p, V, in, ai) ==
  LET at == AttrTab[in.k][ai]
      bad == {i \in DOMAIN p.px : p.px[i].key = in.key /\ SameField(p, V, in, ai, p.px[i].ai)}
  IN IF bad # {} THEN PoisonV(p.px[CHOOSE i \in bad : TRUE].v)
     ELSE IF at.sp THEN SpGet(p, V, in, at)
     ELSE LET v == PlainGet(p, V, in, at)
          IN IF v = None /\ in.k = "VSTPlugin" /\ at.alts[1].sub # 0 /\ Loc(p, V, in, at)[1] = 0
             THEN Err(ErrAttr) ELSE v

----------------------------------------------------------------------------
\* Assignment: [err |-> set of admissible errors, p |-> project afterwards];
\* err = {}: it succeeds.
Fails(p, S0) == [err |-> S0, p |-> p]
Works(p) == [err |-> {}, p |-> p]
PutEvent(p, e, data) == [p EXCEPT !.evs[e].data = data]

MaxTempo(p) == IF VerGeq(FullVersion(p.evs), <<1, 4, 2>>) /\ VerLess(FullVersion(p.evs), <<11, 0, 0>>)
               THEN 999000 ELSE 522000

\* v: <<15, hi, lo>> with a 4th element 1 when a float is assigned
SetTempo(p, V, in, v) ==
  LET t == FirstIn(p.evs, in.g, 156)
      c == FirstIn(p.evs, in.g, 66)
      f == FirstIn(p.evs, in.g, 93)
      m == v[2] * 65536 + v[3]
      \* no fine tuned tempo before 3.4, or where only a coarse one is stored
      errs == (IF \/ v[4] = 1 /\ VerLess(FullVersion(p.evs), <<3, 4, 0>>)
                  \/ m % 1000 # 0 /\ t = 0 /\ f = 0 THEN {ErrType} ELSE {})
              \cup (IF m < 10000 \/ m > MaxTempo(p) THEN {ErrValue} ELSE {})
      p1 == IF t = 0 THEN p ELSE PutEvent(p, t, Enc32(v))
      p2 == IF f = 0 THEN p1 ELSE PutEvent(p1, f, LE16(m % 1000))
      p3 == IF c = 0 THEN p2 ELSE PutEvent(p2, c, LE16(m \div 1000))
  IN IF t = 0 /\ c = 0 THEN Fails(p, {ErrCannotSet})
     ELSE IF errs # {} THEN Fails(p, errs) ELSE Works(p3)

\* v: <<5, cps...>>, "a.b.c" or "a.b.c.d"
SetVersion(p, v) ==
  LET e == FirstIn(p.evs, Ixs(p.evs), VersionId)
      b == FirstIn(p.evs, Ixs(p.evs), 159)
      parts == VersionParts(Tail(v))
      p1 == PutEvent(p, e, IF Tail(v) = StripNul(p.raw[e].data) THEN p.raw[e].data ELSE Tail(v) \o <<0>>)
  IN IF Len(parts) \notin {3, 4} THEN Fails(p, {ErrValue})
     ELSE Works(IF Len(parts) = 4 /\ b # 0 THEN PutEvent(p1, b, LE32(parts[4])) ELSE p1)

RECURSIVE PagesBytes(_)
PagesBytes(v) ==       \* v: flattened pairs, without the tag
  IF v = <<>> THEN <<>>
  ELSE LET pr == SubSeq(v, 2, 1 + v[1])
           tx == Utf16Enc(Tail(Snd(pr)))
       IN Enc32(Fst(pr)) \o VarInt(Len(tx) \div 2) \o tx \o PagesBytes(SubSeq(v, 2 + v[1], Len(v)))

SpSet(p, V, in, at, v) ==
  LET a == at.a IN
  CASE a = "tempo" -> SetTempo(p, V, in, v)
    [] a = "version" -> SetVersion(p, v)
    [] a = "channel_count" -> IF v[2] < 0 THEN Fails(p, {ErrValue})
                              ELSE Works([p EXCEPT !.chc = ToInt(v)])
    [] a = "ppq" -> IF v[2] = 0 /\ v[3] \in ValidPPQs THEN Works([p EXCEPT !.ppq = v[3]])
                    ELSE Fails(p, {ErrValue})
    [] a = "format" -> Works([p EXCEPT !.fmt = ToInt(v)])
    [] a = "iid" ->
         LET ns == SelIn(p.evs, in.g, {65})
         IN Works([p EXCEPT !.evs = [i \in DOMAIN p.evs |->
              IF \E j \in DOMAIN ns : ns[j] = i THEN [p.evs[i] EXCEPT !.data = Enc16(v)] ELSE p.evs[i]]])
    [] a = "channel" ->
         Works(PutEvent(p, in.e, Splice(p.evs[in.e].data, in.o + 6, 2, LE16(ChannelIid(p, V, ToInt(v))))))
    [] a = "pattern" ->
         Works(PutEvent(p, in.e, Splice(p.evs[in.e].data, in.o + 6, 2,
               LE16(PatternIid(p, V, ToInt(v)) + U16At(p.evs[in.e].data, in.o + 4)))))
    [] a = "pages" ->
         LET e == FirstIn(p.evs, in.g, 213)
             b == p.evs[e].data
             en == NotePages(b, 8, <<>>)[2]
         IN Works(PutEvent(p, e, Slice(b, 0, 8) \o PagesBytes(Tail(v)) \o SubSeq(b, en + 1, Len(b))))
    [] a = "editable" ->
         LET e == FirstIn(p.evs, in.g, 213)
             b == p.evs[e].data
         IN Works(PutEvent(p, e, Splice(b, NotePages(b, 8, <<>>)[2] + 4, 1, <<v[3]>>)))
    [] OTHER -> Fails(p, {ErrOther})

LE64(n) == LE32(n) \o <<0, 0, 0, 0>>
Unpoison(p, V, in, ai) ==
  [p EXCEPT !.px = SelectSeq(@, LAMBDA x : ~(x.key = in.key /\ SameField(p, V, in, ai, x.ai)))]

KeyErrors(alt, v) ==
  IF alt.c # "notekey" THEN {}
  ELSE IF v[1] = 2 THEN (IF v[2] = 0 /\ v[3] < 132 THEN {} ELSE {ErrValue})
  ELSE IF \E n \in 0 .. 131 : NoteNames[(n % 12) + 1] \o Digits(n \div 12) = Tail(v) THEN {}
  ELSE {ErrValue}

\* Volume and panning of a channel may be stored in both of the older events (a word and a
\* byte), where there is no newer one: both are written. The number of the second one.
Older(p, V, in, at, l) ==
  IF at.a \in {"pan", "volume"} /\ Len(at.alts) = 3 /\ l[1] = 2
  THEN LocAlt(p, V, in, at.alts[3])[1] ELSE 0
PutOlder(p, V, in, at, l, v) ==
  LET e == Older(p, V, in, at, l)
  IN IF e = 0 THEN p ELSE PutEvent(p, e, Enc(at.alts[3].c, at.alts[3].x, v, p.evs[e].data, p.uni))

PlainSet(p, V, in, ai, at, v) ==
  LET l == Loc(p, V, in, at)
      alt == at.alts[l[1]]
      b == p.evs[l[2]].data
      old == Slice(b, l[3], l[4])
      \* an event whose value is again the one it had in the file has its bytes again
      was == IF TypeOfId(p.evs[l[2]].id) \in {"bool", "text", "ascii"} THEN p.raw[l[2]].data ELSE old
      new == Enc(alt.c, alt.x, v, was, p.uni)
      p0 == Unpoison(p, V, in, ai)
  IN IF l[1] = 0 \/ l[4] < 0 THEN Fails(p, {ErrCannotSet})
     ELSE IF KeyErrors(alt, v) # {} THEN Fails(p, KeyErrors(alt, v))
     ELSE IF ~Fits(alt.c, v, p.uni) \/ (Older(p, V, in, at, l) # 0 /\ ~Fits(at.alts[3].c, v, p.uni))
          THEN Works([p0 EXCEPT !.px = Append(@, [key |-> in.key, ai |-> ai, v |-> v])])
     ELSE IF alt.off < 0 /\ alt.sub # 0
          THEN Works(PutEvent(p0, l[2], Splice(b, l[3] - 8, 8 + l[4], LE64(Len(new)) \o new)))
     ELSE Works(PutOlder(PutEvent(p0, l[2], Splice(b, l[3], l[4], new)), V, in, at, l, v))

\* An unsuitable value is refused at once, or at the latest by the next save.
CanHold(p, V, in, at) == at.w /\ (at.sp \/ (Loc(p, V, in, at)[1] # 0 /\ Loc(p, V, in, at)[4] >= 0))
Poison(p, V, in, ai, v) ==
  [Unpoison(p, V, in, ai) EXCEPT !.px = Append(@, [key |-> in.key, ai |-> ai, v |-> v])]

Set(p, V, in, ai, v) ==
  LET at == AttrTab[in.k][ai]
  IN IF ~at.w THEN Fails(p, {ErrCannotSet, ErrAttr})
     ELSE IF at.sp
          THEN LET r == SpSet(p, V, in, at, v) IN IF r.err = {} THEN [r EXCEPT !.p = Unpoison(r.p, V, in, ai)] ELSE r
     ELSE IF at.dct /\ Loc(p, V, in, at)[1] = 0 THEN Fails(p, {0})   \* no object to assign to
     ELSE PlainSet(p, V, in, ai, at, v)
----------------------------------------------------------------------------
\* Events are added to and removed from the project (position at, from 1). The
\* kind of plugin data stays what it was when the file was opened.
InsertEvent(p, at, id, data) ==
  LET In(q, x) == SubSeq(q, 1, at - 1) \o <<x>> \o SubSeq(q, at, Len(q))
      e == [id |-> id, data |-> data]
  IN [p EXCEPT !.evs = In(@, e), !.raw = In(@, e), !.unis = In(@, p.uni), !.pt = In(@, "")]
RemoveEvent(p, at) ==
  LET Out(q) == SubSeq(q, 1, at - 1) \o SubSeq(q, at + 1, Len(q))
  IN [p EXCEPT !.evs = Out(@), !.raw = Out(@), !.unis = Out(@), !.pt = Out(@)]
=============================================================================
