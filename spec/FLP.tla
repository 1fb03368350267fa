-------------------------------- MODULE FLP --------------------------------
(***************************************************************************)
(* The container: header chunk, data chunk, event stream; which value type *)
(* every event id has; reading a file and writing it back.                 *)
(***************************************************************************)
EXTENDS Bytes

Word == 64
Dword == 128
Text == 192
Data == 208
NewTextIds == {231, 239, 241}

FileFormats == {-1, 0, 16, 24, 32, 48, 49, 50, 64, 80}
ValidPPQs == {24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960}

FLhd == <<70, 76, 104, 100>>
FLdt == <<70, 76, 100, 116>>

----------------------------------------------------------------------------
\* Value type of an event, decided by its id alone (text: also the version).
BoolIds  == {0, 9, 10, 15, 20, 26, 28, 30, 32}
I8Ids    == {22}
I16Ids   == {80, 95}
I32Ids   == {142, 145, 146, 147, 154, 161}
F32Ids   == {140}
PairIds  == {131, 132, 138, 152}
ColorIds == {128, 149, 150}
StructIds == {209, 212, 213, 215, 217, 218, 219, 221, 223, 224, 225, 226, 227,
              228, 229, 233, 234, 235, 236, 237, 238}
VersionId == 199
InternalNameId == 201
PluginDataId == 213

TypeOfId(id) ==
  CASE id \in BoolIds  -> "bool"
    [] id \in I8Ids    -> "i8"
    [] id < Word /\ id \notin (BoolIds \cup I8Ids) -> "u8"
    [] id \in I16Ids   -> "i16"
    [] id >= Word /\ id < Dword /\ id \notin I16Ids -> "u16"
    [] id \in I32Ids   -> "i32"
    [] id \in F32Ids   -> "f32"
    [] id \in PairIds  -> "pair"
    [] id \in ColorIds -> "color"
    [] id >= Dword /\ id < Text /\ id \notin (I32Ids \cup F32Ids \cup PairIds \cup ColorIds) -> "u32"
    [] id = VersionId  -> "ascii"
    [] (id >= Text /\ id < Data /\ id # VersionId) \/ id \in NewTextIds -> "text"
    [] id \in StructIds -> "struct"
    [] OTHER -> "bytes"

FixedSize(id) == IF id < Word THEN 1 ELSE IF id < Dword THEN 2 ELSE IF id < Text THEN 4 ELSE 0

----------------------------------------------------------------------------
\* The events of the data chunk, from 0-based offset o up to the end of b.
\* Result: [err |-> 0, evs |-> <<[id, data], ...>>] or err # 0.
\* one event at offset s.o is added to s.evs, until s.done
ReadOne(b, s) ==
  IF s.o >= Len(b) THEN [s EXCEPT !.done = TRUE]
  ELSE
    LET id == b[s.o + 1]
        fx == FixedSize(id)
        vi == VarIntAt(b, s.o + 1)
        n == IF fx > 0 THEN fx ELSE vi[1]
        st == s.o + 1 + (IF fx > 0 THEN 0 ELSE vi[2])
    IN IF n < 0 THEN [s EXCEPT !.done = TRUE, !.err = ErrOther]
       ELSE IF st + n > Len(b) THEN [s EXCEPT !.done = TRUE, !.err = ErrChunkSize]
       ELSE [s EXCEPT !.o = st + n, !.evs = Append(@, [id |-> id, data |-> Slice(b, st, n)])]
\* an event takes at least two bytes
ReadEventsR(b, o, acc) ==
  FoldLeft(LAMBDA s, i : IF s.done THEN s ELSE ReadOne(b, s),
           [err |-> 0, evs |-> acc, o |-> o, done |-> FALSE],
           [i \in 1 .. ((Len(b) - o) \div 2 + 1) |-> i])

EventBytes(e) ==
  IF e.id < Text THEN <<e.id>> \o e.data
  ELSE <<e.id>> \o VarInt(Len(e.data)) \o e.data

EventsBytes(evs) == Flat([i \in DOMAIN evs |-> EventBytes(evs[i])])

----------------------------------------------------------------------------
\* "20.8.4.2576" -> <<20, 8, 4, 2576>>
VersionCps(evs) ==
  LET p == SelectSeq(evs, LAMBDA e : e.id = VersionId)
  IN IF p = <<>> THEN <<>> ELSE StripNul(p[1].data)
RECURSIVE SplitDots(_, _, _)
SplitDots(s, cur, acc) ==
  IF s = <<>> THEN Append(acc, cur)
  ELSE IF Head(s) = 46 THEN SplitDots(Tail(s), 0, Append(acc, cur))
  ELSE SplitDots(Tail(s), cur * 10 + (Head(s) - 48), acc)
VersionParts(cps) == SplitDots(cps, 0, <<>>)
\* lexicographic comparison of version tuples; a missing component is older
RECURSIVE VerLess(_, _)
VerLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE VerLess(Tail(a), Tail(b))
VerGeq(a, b) == ~VerLess(a, b)
Version(evs) == VersionParts(VersionCps(evs))
\* as numbers, a version of fewer than three components has zeros in their place
FullVersion(evs) ==
  LET v == Version(evs) IN v \o SubSeq(<<0, 0, 0>>, 1, IF Len(v) < 3 THEN 3 - Len(v) ELSE 0)
\* Text is UTF-16 from version 11.5 onwards, ASCII before it.
IsUnicode(evs) == LET v == Version(evs) IN VerGeq(SubSeq(v, 1, IF Len(v) < 2 THEN Len(v) ELSE 2), <<11, 5>>)
\* Which of the two the text of every event is: the last version event before
\* it decides.
Unicodes(evs) ==
  LET vs == {i \in DOMAIN evs : evs[i].id = VersionId}
      at == [i \in vs |-> IsUnicode(<<evs[i]>>)]
  IN IF Cardinality(vs) < 2
     THEN LET u == \E i \in vs : at[i] IN [i \in DOMAIN evs |-> u]
     ELSE [i \in DOMAIN evs |->
             LET b == {j \in vs : j <= i} IN b # {} /\ at[CHOOSE j \in b : \A k \in b : k <= j]]

----------------------------------------------------------------------------
HeaderOk(b) ==
  /\ Len(b) >= 14
  /\ Slice(b, 0, 4) = FLhd
  /\ Slice(b, 4, 4) = <<6, 0, 0, 0>>
  /\ S16(U16At(b, 8)) \in FileFormats
  /\ U16At(b, 12) \in ValidPPQs
  /\ Len(b) >= 22
  /\ Slice(b, 14, 4) = FLdt
  /\ Len32(b, 18) > 0
  /\ Len(b) = Len32(b, 18) + 22

\* Text which occurs before the version event cannot be decoded.
TextBeforeVersion(evs) ==
  \E i \in DOMAIN evs :
    /\ TypeOfId(evs[i].id) = "text"
    /\ \A j \in 1 .. i : evs[j].id # VersionId

ReadFile(b) ==
  IF ~HeaderOk(b) THEN [err |-> ErrHeader]
  ELSE LET r == ReadEventsR(b, 22, <<>>)
       IN IF r.err # 0 THEN [err |-> r.err]
          ELSE IF TextBeforeVersion(r.evs) THEN [err |-> ErrVersion]
          ELSE [err |-> 0, fmt |-> S16(U16At(b, 8)), chc |-> U16At(b, 10),
                ppq |-> U16At(b, 12), evs |-> r.evs]

WriteFile(fmt, chc, ppq, evs) ==
  LET d == EventsBytes(evs)
  IN FLhd \o <<6, 0, 0, 0>> \o LE16(fmt % 65536) \o LE16(chc) \o LE16(ppq)
     \o FLdt \o LE32(Len(d)) \o d

----------------------------------------------------------------------------
\* Value of a whole event as the library exposes it (struct events: no value).
EventValue(e, uni) ==
  LET t == TypeOfId(e.id) IN
  CASE t = "bool"  -> Bool(e.data[1] # 0)
    [] t = "u8"    -> DecU8(e.data)
    [] t = "i8"    -> DecI8(e.data)
    [] t = "u16"   -> DecU16(e.data)
    [] t = "i16"   -> DecI16(e.data)
    [] t = "u32"   -> DecU32(e.data)
    [] t = "i32"   -> DecI32(e.data)
    [] t = "f32"   -> <<3>> \o e.data
    [] t = "pair"  -> <<7, 3>> \o DecU16(Slice(e.data, 0, 2)) \o <<3>> \o DecU16(Slice(e.data, 2, 2))
    [] t = "color" -> <<8>> \o e.data
    [] t = "ascii" -> <<5>> \o StripNul(e.data)
    [] t = "text"  -> <<5>> \o StripNul(IF uni THEN Utf16Dec(e.data) ELSE e.data)
    [] t = "bytes" -> <<6>> \o e.data
    [] OTHER       -> <<16>>
=============================================================================
