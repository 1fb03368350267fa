------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, little endian numbers and the tagged value encoding which *)
(* is shared by the specification and the conformance drivers.             *)
(*                                                                         *)
(* TLC integers have 32 bits, so a number never appears as one TLA+        *)
(* integer when it may need 32 bits: an "int value" is <<2, hi, lo>> with  *)
(* n = hi * 65536 + lo, 0 <= lo < 65536 (floor division, so hi is signed). *)
(*                                                                         *)
(* Every value is a flat sequence of small integers whose head is a tag,   *)
(* which makes every two values comparable:                                *)
(*   <<0>>            None                                                 *)
(*   <<2, hi, lo>>    int, bool and enumeration members                    *)
(*   <<3, b0..b3>>    float exactly representable in 32 bits (IEEE bytes)  *)
(*   <<4, b0..b7>>    any other float (IEEE 64 bit bytes)                  *)
(*   <<5, cp...>>     text, one code point per element                     *)
(*   <<6, b...>>      bytes                                                *)
(*   <<7, n1, x1..>>  tuple: every element prefixed by its length          *)
(*   <<8, r, g, b, a>> colour, 0-255 each                                  *)
(*   <<9, code>>      the operation raised: see Errors below               *)
(*   <<12, cp...>>    file system path                                     *)
(*   <<14, hi, lo>>   a model object, identified by its internal id        *)
(*   <<15, hi, lo>>   a float abstracted to the integer its codec stores   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, TLC

\* concatenation of a sequence of sequences
Flat(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, TLCEval(seqs))

Byte == 0 .. 255

None == <<0>>
IntV(n) == <<2, n \div 65536, n % 65536>>
TRUEV == IntV(1)
FALSEV == IntV(0)
Bool(b) == IF b THEN TRUEV ELSE FALSEV
IsNone(v) == v = None
IsInt(v) == v[1] = 2
\* only for values known to fit 31 bits
ToInt(v) == v[2] * 65536 + v[3]

\* Errors: code of the class of exception a caller can tell apart
ErrCannotSet == 1      \* "property cannot be set"
ErrHeader    == 2      \* "header corrupted"
ErrVersion   == 3      \* "version not detected"
ErrNoModels  == 4
ErrNotFound  == 5      \* "model not found" (also channel not found)
ErrIdRange   == 6      \* "event id out of range"
ErrChunkSize == 7      \* "invalid event chunk size"
ErrValue     == 8      \* ValueError
ErrType      == 9      \* TypeError
ErrKey       == 10     \* KeyError / IndexError / LookupError
ErrAttr      == 11     \* AttributeError
ErrOther     == 12
Err(c) == <<9, c>>
IsErr(v) == v[1] = 9

----------------------------------------------------------------------------
\* Slices use 0-based offsets like the file format documentation does.
Slice(b, off, n) == SubSeq(b, off + 1, off + n)
Splice(b, off, n, x) == SubSeq(b, 1, off) \o x \o SubSeq(b, off + n + 1, Len(b))

U8At(b, o) == b[o + 1]
U16At(b, o) == b[o + 1] + 256 * b[o + 2]
S16(n) == IF n >= 32768 THEN n - 65536 ELSE n
S8(n) == IF n >= 128 THEN n - 256 ELSE n

DecU8(b)  == <<2, 0, b[1]>>
DecI8(b)  == IntV(S8(b[1]))
DecU16(b) == <<2, 0, U16At(b, 0)>>
DecI16(b) == IntV(S16(U16At(b, 0)))
DecU32(b) == <<2, U16At(b, 2), U16At(b, 0)>>
DecI32(b) == <<2, S16(U16At(b, 2)), U16At(b, 0)>>

LE16(n) == <<n % 256, n \div 256>>                    \* 0 <= n < 65536
EncU8(v)  == <<v[3]>>
EncI8(v)  == <<v[3] % 256>>
Enc16(v)  == LE16(v[3])
Enc32(v)  == LE16(v[3]) \o LE16(v[2] % 65536)

\* Which int values a field of a given width and signedness can hold.
FitsU8(v)  == v[2] = 0 /\ v[3] < 256
FitsI8(v)  == \/ v[2] = 0 /\ v[3] < 128
              \/ v[2] = -1 /\ v[3] >= 65536 - 128
FitsU16(v) == v[2] = 0
FitsI16(v) == \/ v[2] = 0 /\ v[3] < 32768
              \/ v[2] = -1 /\ v[3] >= 32768
FitsU32(v) == v[2] >= 0 /\ v[2] < 65536
FitsI32(v) == v[2] >= -32768 /\ v[2] < 32768

LE32(n) == LE16(n % 65536) \o LE16(n \div 65536)      \* 0 <= n < 2^31
\* 4 byte little endian length, only its low 31 bits are used by the model
Len32(b, o) == IF b[o + 4] >= 128 THEN -1
               ELSE U16At(b, o) + 65536 * U16At(b, o + 2)

----------------------------------------------------------------------------
\* Variable length quantity: 7 bits per byte, least significant group first,
\* the top bit of every byte but the last one is set.
RECURSIVE VarInt(_)
VarInt(n) == IF n < 128 THEN <<n>>
             ELSE <<128 + (n % 128)>> \o VarInt(n \div 128)

\* <<value, number of bytes read>>, value = -1 when it is cut off by the end, or beyond any file
RECURSIVE VarIntAtR(_, _, _, _, _)
VarIntAtR(b, o, shift, acc, k) ==
  IF o + k >= Len(b) THEN <<-1, k>>
  ELSE LET x == b[o + k + 1]
           v == acc + (x % 128) * shift
       IN IF k > 3 /\ x % 128 # 0 THEN <<-1, k>>
          ELSE IF x >= 128 THEN VarIntAtR(b, o, IF k < 3 THEN shift * 128 ELSE 0, v, k + 1)
          ELSE <<v, k + 1>>
VarIntAt(b, o) == VarIntAtR(b, o, 1, 0, 0)

----------------------------------------------------------------------------
\* Text: sequences of code points
RECURSIVE StripNul(_)
StripNul(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN StripNul(SubSeq(s, 1, Len(s) - 1)) ELSE s

Utf16Enc(s) ==
  Flat([i \in DOMAIN s |->
    IF s[i] < 65536 THEN LE16(s[i])
    ELSE LE16(55296 + ((s[i] - 65536) \div 1024)) \o LE16(56320 + ((s[i] - 65536) % 1024))])

Units16(b) == [i \in 1 .. (Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]]
Utf16Dec(b) ==
  LET u == Units16(b)
      hi(i) == u[i] >= 55296 /\ u[i] < 56320
      lo(i) == u[i] >= 56320 /\ u[i] < 57344
      paired(i) == i > 1 /\ hi(i - 1) /\ lo(i)
      cps == [i \in DOMAIN u |->
               IF hi(i) /\ i < Len(u) /\ lo(i + 1)
               THEN 65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320)
               ELSE IF paired(i) THEN -1 ELSE u[i]]
  IN SelectSeq(cps, LAMBDA x : x >= 0)

Utf8Enc(s) ==
  Flat([i \in DOMAIN s |->
    LET c == s[i] IN
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
           128 + ((c \div 64) % 64), 128 + (c % 64)>>])

RECURSIVE Utf8DecR(_, _, _)
Utf8DecR(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET c == b[i] IN
    IF c < 128 THEN Utf8DecR(b, i + 1, Append(acc, c))
    ELSE IF c < 224 THEN Utf8DecR(b, i + 2, Append(acc, (c - 192) * 64 + (b[i + 1] - 128)))
    ELSE IF c < 240 THEN Utf8DecR(b, i + 3, Append(acc,
           (c - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)))
    ELSE Utf8DecR(b, i + 4, Append(acc, (c - 240) * 262144 + (b[i + 1] - 128) * 4096
           + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)))
Utf8Dec(b) == Utf8DecR(b, 1, <<>>)

\* decimal digits (code points) of a natural number
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
=============================================================================
