----------------------------- MODULE MCContainer -----------------------------
(***************************************************************************)
(* Every small file: every data chunk of at most LEN bytes over an         *)
(* alphabet with an identifier of every size class (and continued lengths),*)
(* with and without a version before it; every value of every header byte; *)
(* every cut. What reading and writing owe each other is checked here, the *)
(* files are opened, and if accepted written, by the implementation.       *)
(***************************************************************************)
EXTENDS FLP, Json, IOUtils

N == atoi(IOEnv.LEN)
Alphabet == {0, 1, 2, 64, 128, 194, 208}
Ver == <<199, 6, 57, 46, 48, 46, 48, 0>>                \* "9.0.0"
Chunk(d) == FLhd \o <<6, 0, 0, 0>> \o <<0, 0, 1, 0, 96, 0>> \o FLdt \o LE32(Len(d)) \o d
Small == Chunk(Ver \o <<9, 1>> \o <<66, 140, 0>> \o <<194, 2, 97, 0>> \o <<128, 1, 2, 3, 4>> \o <<208, 1, 7>>)

VARIABLES pre, body, kind
vars == <<pre, body, kind>>
File(d) == Chunk(pre \o d)

Read(b) == TLCEval(ReadFile(b))
\* bytes which are no text leave undocumented errors
Fit(b) == \E r \in {Read(b)} :
  r.err = 0 => \A i \in DOMAIN r.evs : TypeOfId(r.evs[i].id) = "text" => \A c \in ToSet(r.evs[i].data) : c < 128
Rewritten(b) == \E r \in {Read(b)} : r.err = 0 /\ WriteFile(r.fmt, r.chc, r.ppq, r.evs) = b
Case(b) == [b |-> b, x |-> IF Rewritten(b) THEN 1 ELSE 0]
Say(s) == PrintT("@B" \o ToJson(SetToSeq({Case(b) : b \in {x \in s : Fit(x)}})))

Init == /\ body = <<>>
        /\ \/ kind = "body" /\ pre \in {<<>>, Ver}
           \/ kind = "head" /\ pre = <<>>
\* all continuations by a byte
Grow == /\ kind = "body" /\ Len(body) < N
        /\ \E c \in Alphabet :
             /\ c = 0 => Say({File(Append(body, d)) : d \in Alphabet})
             /\ body' = Append(body, c) /\ UNCHANGED <<pre, kind>>
Head_ == /\ kind = "head" /\ body = <<>>
         /\ \E at \in 1 .. 22 :
              /\ Say({[Small EXCEPT ![at] = c] : c \in 0 .. 255})
              /\ body' = <<at>> /\ UNCHANGED <<pre, kind>>
Cuts == /\ kind = "head" /\ body = <<>>
        /\ Say({SubSeq(Small, 1, n) : n \in 0 .. Len(Small)})
        /\ body' = <<0>> /\ UNCHANGED <<pre, kind>>
\* the whole of the format and of the resolution
Words == /\ kind = "head" /\ body = <<>>
         /\ \E hi \in 0 .. 3, at \in {9, 13} :
              /\ Say({[Small EXCEPT ![at] = c, ![at + 1] = hi] : c \in 0 .. 255})
              /\ body' = <<100 * at + hi>> /\ UNCHANGED <<pre, kind>>
Next == Grow \/ Head_ \/ Cuts \/ Words
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Of(d) == Read(File(d))
\* what is read is what was written: reading is the inverse of writing ...
Inverse_ == kind = "body" /\ body # <<>> =>
  \E r \in {Of(body)} :
    r.err = 0 => \E w \in {WriteFile(r.fmt, r.chc, r.ppq, r.evs)} :
       /\ Read(w) = r
       /\ Len(w) <= Len(File(body))
\* ... no event depends on what comes after it ...
Framing == kind = "body" /\ body # <<>> =>
  \E r \in {Of(body)} :
    r.err = 0 => \A c \in Alphabet : \E q \in {Of(Append(body, c))} :
       q.err = 0 => /\ SubSeq(q.evs, 1, Len(r.evs)) = r.evs
                    /\ Len(q.evs) > Len(r.evs)
\* ... and all bytes of an accepted file are in its events
NoLoss == kind = "body" /\ body # <<>> =>
  \E r \in {Of(body)} :
    r.err = 0 /\ 128 \notin ToSet(body) => WriteFile(r.fmt, r.chc, r.ppq, r.evs) = File(body)
Inv == Inverse_ /\ Framing /\ NoLoss
=============================================================================
