----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Histories of programs which open a file, assign attributes, save and    *)
(* open again, enumerated by TLC. FILES names the files to start with (one *)
(* JSON object {"b": bytes} per line). With MODE "all" every assignment of *)
(* an edge value to a writable attribute of a model of the file is a step, *)
(* with MODE "random" steps are drawn at random, for deep histories. With  *)
(* MODE "remove" every removal of an event from a model is a step, with    *)
(* MODE "mixed" removals are drawn among the assignments.                  *)
(* The laws of the library are checked on every step, and every history is *)
(* printed, to be performed on the implementation.                         *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Files == ndJsonDeserialize(IOEnv.FILES)
D == atoi(IOEnv.DEPTH)                     \* steps
Mode == IOEnv.MODE
Random == Mode \in {"random", "mixed"}
Families == LET s == IOEnv.FAMILIES IN IF s = "" THEN 1 .. 21 ELSE ToSet(JsonDeserialize(IOEnv.FAMILIES))

VARIABLES file, hist
vars == <<proj, view, disk, file, hist>>

----------------------------------------------------------------------------
\* Values to assign. Those which do not fit are refused by the next save.
Rep(x, n) == [i \in 1 .. n |-> x]
F(b) == <<3>> \o b
One == <<0, 0, 128, 63>>
MinusHalf == <<0, 0, 0, 191>>
Odd == <<1, 2, 3, 66>>
Ascii == {<<5>>, <<5, 97>>, <<5, 32>>, <<5, 65, 9, 66, 32>>, <<5>> \o Rep(120, 63), <<5>> \o Rep(121, 128)}
Wide == {<<5, 233>>, <<5, 128512, 97>>, <<5, 65279, 65535>>}
BitCodecs == {"bit8", "bit16", "bit32", "nbit32"}
Values(c, x, uni) ==
  CASE c = "u8"  -> {IntV(0), IntV(1), IntV(127), IntV(128), IntV(255), IntV(256), IntV(-1)}
    [] c = "i8"  -> {IntV(0), IntV(127), IntV(-128), IntV(-1), IntV(128), IntV(-129)}
    [] c = "u16" -> {IntV(0), IntV(255), IntV(256), IntV(32768), IntV(65535), IntV(65536), IntV(-1)}
    [] c = "i16" -> {IntV(0), IntV(255), IntV(32767), IntV(-32768), IntV(-1), IntV(32768), IntV(-32769)}
    [] c = "u32" -> {IntV(0), IntV(1), IntV(65536), <<2, 32768, 0>>, <<2, 65535, 65535>>, <<2, 65536, 0>>, IntV(-1)}
    [] c = "i32" -> {IntV(0), IntV(1), IntV(-1), <<2, 32767, 65535>>, <<2, -32768, 0>>, <<2, 32768, 0>>, <<2, -32769, 65535>>}
    [] c \in {"bool8", "bool32"} \cup BitCodecs -> {FALSEV, TRUEV}
    [] c = "f32" -> {F(<<0, 0, 0, 0>>), F(One), F(MinusHalf), F(Odd)}
    [] c = "f64" -> {F(<<0, 0, 0, 0>>), F(One), F(Odd), <<4, 154, 153, 153, 153, 153, 153, 185, 63>>}
    [] c = "text" -> Ascii \cup (IF uni THEN Wide ELSE {<<5, 233>>})
    [] c = "utf8" -> Ascii \cup {<<5, 233>>, <<5, 8364, 128512>>}
    [] c = "path" -> {<<12, 46>>, <<12, 97>>, <<12, 97, 47, 98, 32, 99>>}
    [] c = "licensee" -> {<<5>>, <<5, 97, 66, 49>>}
    [] c = "bytes" -> {<<6>>, <<6, 0>>, <<6>> \o Rep(255, 130)}
    [] c = "color" -> {<<8, 0, 0, 0, 0>>, <<8, 255, 255, 255, 255>>, <<8, 1, 2, 128, 254>>}
    [] c = "pair16" -> {Pair(IntV(0), IntV(0)), Pair(IntV(1), IntV(65535)), Pair(IntV(32768), IntV(2))}
    [] c = "pair32" -> {Pair(IntV(0), IntV(0)), Pair(IntV(1), <<2, 65535, 65535>>)}
    [] c = "loop32" -> {Pair(IntV(0), IntV(0)), Pair(IntV(1), IntV(65535))}
    [] c = "pairf32" -> {Pair(F(One), F(MinusHalf)), Pair(F(<<0, 0, 0, 0>>), F(Odd))}
    [] c = "mtime" -> {<<7, 3>> \o IntV(0) \o <<3>> \o IntV(0) \o <<3>> \o IntV(0),
                       <<7, 3>> \o IntV(17) \o <<3>> \o IntV(15) \o <<3>> \o IntV(235)}
    [] c = "enum" -> {<<5>> \o EnumNames[x][i] : i \in DOMAIN EnumNames[x]}
    [] c = "height" -> {<<5>> \o Digits(n) \o <<37>> : n \in {0, 57, 100, 400}}
    [] c = "log2" -> {<<15, 0, 0>>, <<15, 0, 10000>>, <<15, -1, 55536>>}
    [] c = "lognorm" -> {<<15, 0, 0>>, <<15, 0, 1>>, <<15, 0, 61440>>}
    [] c = "notekey" -> {IntV(0), IntV(131), IntV(132), IntV(-1), <<5, 67, 53>>, <<5, 65, 35, 49, 48>>, <<5, 72, 53>>}
    [] c = "revmix" -> {IntV(0), IntV(256), IntV(65535)}
    [] c = "revtype" -> {IntV(0), IntV(65536)}
    [] OTHER -> {}

V3(a, b, c) == <<5>> \o Digits(a) \o <<46>> \o Digits(b) \o <<46>> \o Digits(c)
SpecialValues(p, V, in, at) ==
  LET a == at.a IN
  CASE a = "tempo" -> {<<15>> \o Tail(IntV(n)) \o <<0>> : n \in {9000, 10000, 140000, 522000, 523000, 999000, 1000000}}
                      \cup {<<15>> \o Tail(IntV(n)) \o <<1>> : n \in {9999, 10001, 139999, 522001}}
    [] a = "channel_count" -> {IntV(0), IntV(1), IntV(65535), IntV(-1)}
    [] a = "ppq" -> {IntV(24), IntV(960), IntV(0), IntV(95), IntV(65536 + 96)}
    [] a = "format" -> {IntV(0), IntV(16), IntV(80)}
    \* on the same side of the versions which change the encoding or the tracks
    [] a = "version" -> IF ~p.uni THEN {V3(1, 4, 1), V3(3, 4, 0), V3(11, 4, 0) \o <<46, 55>>, <<5, 57>>}
                        ELSE IF VerGeq(FullVersion(p.evs), <<12, 9, 1>>)
                        THEN {V3(12, 9, 1), V3(20, 1, 2) \o <<46, 51>>, <<5, 49, 50, 46, 57>>}
                        ELSE {V3(11, 5, 0), V3(12, 9, 0) \o <<46, 55>>}
    [] a = "pages" -> {<<7>>, TupleV(<<Pair(IntV(0), <<5, 97>>)>>),
                       TupleV(<<Pair(IntV(3), <<5>>), Pair(IntV(259), <<5>> \o Rep(120, 130))>>)}
    [] a = "editable" -> {FALSEV, TRUEV}
    [] a = "channel" -> {IntV(i) : i \in DOMAIN V.ch}
    [] a = "pattern" -> {IntV(i) : i \in DOMAIN V.pa}
    [] OTHER -> {}

\* left out: what other models refer to, and what decides the kind of a model
Structural == {"iid", "internal_name"}
ValuesOf(p, V, in, ai) ==
  LET at == AttrTab[in.k][ai]
      l == Loc(p, V, in, at)
      alt == at.alts[IF l[1] = 0 THEN 1 ELSE l[1]]
  IN IF ~at.w \/ (at.a \in Structural /\ in.k # "Track") THEN {}
     ELSE IF at.sp THEN SpecialValues(p, V, in, at)
     ELSE IF Older(p, V, in, at, l) # 0 THEN Values(at.alts[3].c, at.alts[3].x, p.uni)
     ELSE Values(alt.c, alt.x, p.uni)

----------------------------------------------------------------------------
Say(h) == PrintT("@B" \o ToJson([f |-> file, ops |-> h]))
Log(o) ==
  /\ hist' = Append(hist, o)
  /\ UNCHANGED file
  /\ IF Random => Len(hist) + 1 = D THEN Say(Append(hist, o)) ELSE TRUE

Init ==
  /\ file \in DOMAIN Files
  /\ hist = <<>>
  /\ disk = Files[file].b
  /\ \E r \in {OpenFile(Files[file].b)} : proj = r.p /\ view = View(r.p)

Assign(key, ai, v) == DoAssign(key, ai, v) /\ Log([o |-> "set", k |-> key, a |-> ai, v |-> v])
\* events without which the models are still the same ones
Removable(f) ==
  CASE f = FProject -> {9, 10, 12, 23, 28, 66, 80, 93, 146, 156, 194, 195, 197, 198, 200, 202, 206, 207, 237, 227, 225}
    [] f = FRack -> {11, 13, 133}
    [] f = FChannel -> {0, 2, 3, 15, 20, 22, 32, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89, 94, 97, 128, 131, 132, 135, 138,
                        139, 142, 143, 144, 153, 155, 192, 196, 203, 209, 212, 213, 215, 218, 219, 221, 228, 229, 234}
    [] f \in {FChPlugin, FSlotPlugin} -> {212, 213}
    [] f = FPatterns -> {30, 67}
    [] f = FPattern -> {26, 150, 164, 193, 223, 224}
    [] f = FArrangements -> {17, 18, 152, 217}
    [] f = FArrangement -> {233, 241}
    [] f = FTrack -> {239}
    [] f = FMixer -> {29, 225}
    [] f = FInsert -> {95, 149, 154, 204, 235}
    [] f = FSlot -> {128, 155, 203, 212, 213}
    [] OTHER -> {}
CanRemove(in, id) == Cardinality({i \in ToSet(in.g) : proj.evs[i].id = id})
TakeOut(key, id, n) == DoRemove(Inst(proj, view, key).g, id, n) /\ Log([o |-> "remove", k |-> key, i |-> id, n |-> n])
IdsOf(in, key) == Removable(key[1]) \cap {proj.evs[i].id : i \in ToSet(in.g)}
Save == DoSave /\ Log([o |-> "save"])
Reopen == DoOpen(disk) /\ UNCHANGED disk /\ Log([o |-> "reopen"])

MyKeys == SelectSeq(Keys(proj, view), LAMBDA k : k[1] \in Families)
\* the last EACH models of every kind
Each == atoi(IOEnv.EACH)
SomeKeys ==
  LET ks == MyKeys
      kd == [i \in DOMAIN ks |-> Inst(proj, view, ks[i]).k]
  IN {ks[i] : i \in {i \in DOMAIN ks : Cardinality({j \in i .. Len(ks) : kd[j] = kd[i]}) <= Each}}
All ==
  \E key \in TLCEval(SomeKeys) :
  \E in \in {Inst(proj, view, key)} :
  \E ai \in DOMAIN AttrTab[in.k] :
  \E v \in ValuesOf(proj, view, in, ai) : Assign(key, ai, v)

Removals ==
  \E key \in TLCEval(SomeKeys) :
  \E in \in {Inst(proj, view, key)} :
  \E id \in IdsOf(in, key) :
  \E n \in 0 .. (CanRemove(in, id) - 1) : TakeOut(key, id, n)

Draw(S0) == RandomElement(S0)
RemoveAny ==
  \E key \in {Draw(ToSet(MyKeys))} :
  \E in \in {Inst(proj, view, key)} :
  \E ids \in {IdsOf(in, key)} :
    IF ids = {} \/ proj.px # <<>> THEN Save
    ELSE \E id \in {Draw(ids)} : \E n \in {Draw(0 .. (CanRemove(in, id) - 1))} : TakeOut(key, id, n)
AtRandom ==
  \E dice \in {RandomElement(1 .. 20)} :
    IF dice = 20 THEN Reopen
    ELSE IF dice = 19 THEN Save
    ELSE IF Mode = "mixed" /\ dice > 11 THEN RemoveAny
    ELSE \E key \in {Draw(ToSet(MyKeys))} :
         \E in \in {Inst(proj, view, key)} :
         \E can \in {{ai \in DOMAIN AttrTab[in.k] : ValuesOf(proj, view, in, ai) # {}}} :
           IF can = {} THEN Save
           ELSE \E ai \in {Draw(can)} : \E v \in {Draw(ValuesOf(proj, view, in, ai))} : Assign(key, ai, v)

Next == Len(hist) < D /\ (IF Random THEN AtRandom ELSE IF Mode = "remove" THEN Removals ELSE All)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Laws
\* what can be saved reads back as the same project with the same models
Kept ==
  CanSave => \E b \in {SaveFile(proj)} : \E r \in {OpenFile(b)} :
    /\ r.err = 0
    /\ StoredPart(r.p) = StoredPart(proj)
    /\ r.p.pt = proj.pt /\ r.p.uni = proj.uni /\ View(r.p) = view

Done == hist'[Len(hist')]
Stepped == hist' # hist
Assigned == Stepped /\ Done.o = "set"

\* the bytes an assignment may touch: in the field of the attribute only
Touchable(in, at) ==
  CASE at.a = "tempo" -> {66, 93, 156}
    [] at.a = "version" -> {159, 199}
    [] at.a \in {"channel_count", "ppq", "format"} -> {}
    [] OTHER -> {213, 233}
Elsewhere ==
  Assigned =>
    \E in \in {Inst(proj, view, Done.k)} : \E at \in {AttrTab[in.k][Done.a]} :
    \E l \in {IF at.sp THEN <<0, 0, 0, 0>> ELSE Loc(proj, view, in, at)} :
    \E ch \in {{i \in DOMAIN proj.evs : proj'.evs[i] # proj.evs[i]}} :
      /\ Len(proj'.evs) = Len(proj.evs)
      /\ \A i \in ch : proj'.evs[i].id = proj.evs[i].id
      /\ IF at.sp THEN \A i \in ch : proj.evs[i].id \in Touchable(in, at)
         ELSE ch \subseteq {l[2], Older(proj, view, in, at, l)}
      /\ (~at.sp /\ ch # {}) =>
           LET b == proj.evs[l[2]].data
               c == proj'.evs[l[2]].data
               hd == IF at.alts[l[1]].sub \notin {0} /\ at.alts[l[1]].off < 0 THEN 8 ELSE 0   \* its length
               tl == Len(b) - l[3] - l[4]
           IN /\ SubSeq(b, 1, l[3] - hd) = SubSeq(c, 1, l[3] - hd)
              /\ SubSeq(b, Len(b) - tl + 1, Len(b)) = SubSeq(c, Len(c) - tl + 1, Len(c))
      /\ at.a \notin {"channel_count"} => proj'.chc = proj.chc
      /\ at.a \notin {"ppq"} => proj'.ppq = proj.ppq
      /\ at.a \notin {"format"} => proj'.fmt = proj.fmt
      /\ Keys(proj', view') = Keys(proj, view)

\* a reverb whose mix is so far beyond its maximum that it is taken for a type
Garbled(in, at) == at.a \in {"fx.reverb.type", "fx.reverb.mix"}
  /\ \E l \in {Loc(proj, view, in, at)} : l[1] # 0 /\ DecU32(proj.evs[l[2]].data)[2] >= 2

\* an assignment which raises changes nothing; otherwise the value is read back
ReadsBack ==
  Assigned =>
    \E in \in {Inst(proj, view, Done.k)} : \E at \in {AttrTab[in.k][Done.a]} :
    \E r \in {Set(proj, view, in, Done.a, Done.v)} :
      IF r.err # {} THEN proj' = proj /\ view' = view
      ELSE IF at.a = "version" THEN TRUE
      ELSE IF Garbled(in, at) THEN TRUE
      ELSE Get(proj', view', Inst(proj', view', Done.k), Done.a)
           = Reads(at, IF at.sp THEN "" ELSE at.alts[Loc(proj, view, in, at)[1]].c, Done.v)

\* assigning what is read already changes no bytes
\* (but a path "." is stored as no text, and a licensee has many encodings)
Idempotent ==
  Assigned =>
    \E in \in {Inst(proj, view, Done.k)} :
      (/\ Get(proj, view, in, Done.a) = Done.v
       /\ Done.v # <<12, 46>>
       /\ \E at \in {AttrTab[in.k][Done.a]} : at.sp \/ Older(proj, view, in, at, Loc(proj, view, in, at)) = 0
       /\ AttrTab[in.k][Done.a].a \notin {"version", "licensee"}) => proj'.evs = proj.evs

\* two fields which share no bit
Apart(la, ca, lb, cb) ==
  \/ la[3] + la[4] <= lb[3] \/ lb[3] + lb[4] <= la[3]
  \/ ca.c \in BitCodecs /\ cb.c \in BitCodecs /\ la[3] * 8 + ca.x # lb[3] * 8 + cb.x
  \/ {ca.c, cb.c} = {"revmix", "revtype"}
\* the other attributes stored in the same event read as before
SameModel ==
  Assigned =>
    \E in \in {Inst(proj, view, Done.k)} : \E in2 \in {Inst(proj', view', Done.k)} :
    \E at \in {AttrTab[in.k][Done.a]} :
      at.sp \/ proj'.evs = proj.evs \/
      \E la \in {Loc(proj, view, in, at)} :
        \A j \in DOMAIN AttrTab[in.k] \ {Done.a} :
          \E bt \in {AttrTab[in.k][j]} : bt.sp \/ Garbled(in, bt) \/
          \E lb \in {Loc(proj, view, in, bt)} :
            \/ lb[2] # la[2]
            \/ ~Apart(la, at.alts[la[1]], lb, bt.alts[lb[1]])
            \/ Get(proj', view', in2, j) = Get(proj, view, in, j)

\* a removal takes one event away, and changes no attribute which was not stored in it
Removed == Stepped /\ Done.o = "remove"
RemovalLaw ==
  Removed =>
    /\ Len(proj'.evs) = Len(proj.evs) - 1
    /\ ToSet(Keys(proj', view')) \subseteq ToSet(Keys(proj, view))
    /\ \A key \in ToSet(Keys(proj', view')) :
       \E in \in {Inst(proj, view, key)} : \E in2 \in {Inst(proj', view', key)} :
         in.k = in2.k =>
         \A j \in DOMAIN AttrTab[in.k] :
           \E at \in {AttrTab[in.k][j]} :
             \/ at.sp \/ \E i \in DOMAIN at.alts : at.alts[i].id = Done.i
             \/ Get(proj', view', in2, j) = Get(proj, view, in, j)

\* a save writes all of it or nothing; poisoned projects are not saved
SaveLaw ==
  (Stepped /\ Done.o = "save") =>
     /\ proj' = proj
     /\ IF proj.px = <<>> THEN disk' = SaveFile(proj) ELSE disk' = disk

LElsewhere == [][Elsewhere]_vars
LReadsBack == [][ReadsBack]_vars
LIdempotent == [][Idempotent]_vars
LSameModel == [][SameModel]_vars
LRemoval == [][RemovalLaw]_vars
LSave == [][SaveLaw]_vars
=============================================================================
