------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Event objects made by hand: every class of event accepts a range of     *)
(* identifiers and, for those of fixed size, one size of data; it exposes  *)
(* a value and serialises to its bytes. Versions: an ordered value type.   *)
(***************************************************************************)
EXTENDS Codec

Classes == {"Bool", "I8", "U8", "I16", "U16", "F32", "I32", "U32", "Pair", "Color", "Ascii", "Unicode", "Unknown"}
Accepts(c, id) ==
  CASE c \in {"Bool", "I8", "U8"} -> id < Word
    [] c \in {"I16", "U16"} -> id >= Word /\ id < Dword
    [] c \in {"F32", "I32", "U32", "Pair", "Color"} -> id >= Dword /\ id < Text
    [] c \in {"Ascii", "Unicode"} -> (id >= Text /\ id < Data) \/ id \in NewTextIds
    [] OTHER -> TRUE
CodecOf(c) ==
  CASE c = "Bool" -> "bool8" [] c = "I8" -> "i8" [] c = "U8" -> "u8" [] c = "I16" -> "i16" [] c = "U16" -> "u16"
    [] c = "F32" -> "f32" [] c = "I32" -> "i32" [] c = "U32" -> "u32" [] c = "Pair" -> "pair16"
    [] c = "Color" -> "color" [] c \in {"Ascii", "Unicode"} -> "text" [] c = "Unknown" -> "bytes"

\* identifier first, then the size
MakeErr(c, id, d) ==
  IF ~Accepts(c, id) THEN ErrIdRange
  ELSE IF FixedSize(id) > 0 /\ Len(d) # FixedSize(id) THEN ErrChunkSize
  ELSE 0
ValueOf(c, d) == Dec(CodecOf(c), 0, d, c = "Unicode")
BytesOf(id, d) == EventBytes([id |-> id, data |-> d])
\* data after assigning v to the event's value
Assigned(c, d, v) == Enc(CodecOf(c), 0, v, d, c = "Unicode")
Storable(c, v) == Fits(CodecOf(c), v, c = "Unicode")

\* two events are equal when identifier and value are
Equal(a, b) == a.i = b.i /\ ValueOf(a.c, a.d) = ValueOf(b.c, b.d)

----------------------------------------------------------------------------
\* versions <<major, minor, patch>> or <<major, minor, patch, build>>;
\* without a build is older than with one
VText(v) == LET t == Flat([i \in DOMAIN v |-> (IF i = 1 THEN <<>> ELSE <<46>>) \o Digits(v[i])]) IN t
Older(a, b) == VerLess(a, b)
=============================================================================
