------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* How one attribute value is stored in the bytes of one field.            *)
(*   Dec(c, x, b)       value of the field bytes b under codec c           *)
(*   Enc(c, x, v, old)  bytes after assigning v (old: bytes before)        *)
(*   Size(c)            field width, 0: the rest of its container          *)
(*   Fits(c, x, v)      v can be stored                                    *)
(* x is a codec parameter: a bit number or a table of names.               *)
(***************************************************************************)
EXTENDS FLP

Size(c) ==
  CASE c \in {"u8", "i8", "bool8", "bit8"} -> 1
    [] c \in {"u16", "i16", "bit16", "notekey"} -> 2
    [] c \in {"u32", "i32", "bool32", "f32", "color", "pair16", "bit32", "nbit32", "height",
              "mtime", "log2", "lognorm", "enum", "revmix", "revtype", "tmpos", "tmtype",
              "milli32"} -> 4
    [] c \in {"pair32", "pairf32", "loop32", "f64", "days32", "days32abs"} -> 8
    [] OTHER -> 0

\* Names of a textual enumeration, by parameter
EnumNames == <<
  << <<65>>, <<66>> >>,                                              \* 1: A B
  << <<112, 114, 101>>, <<112, 111, 115, 116>> >>,                   \* 2: pre post
  << <<110, 111, 110, 101>>, <<108, 101, 102, 116>>, <<114, 105, 103, 104, 116>> >>, \* 3: none left right
  << <<65>>, <<66>>, <<67>>, <<68>> >> >>                            \* 4: A B C D

NoteNames == << <<67>>, <<67, 35>>, <<68>>, <<68, 35>>, <<69>>, <<70>>, <<70, 35>>,
                <<71>>, <<71, 35>>, <<65>>, <<65, 35>>, <<66>> >>

----------------------------------------------------------------------------
\* Bits. b: field bytes, bit 0 is the lowest bit of the first byte.
GetBit(b, bit) == (b[bit \div 8 + 1] \div (2 ^ (bit % 8))) % 2
SetBit(b, bit, v) ==
  [i \in DOMAIN b |-> IF i = bit \div 8 + 1
                      THEN b[i] + (v - GetBit(b, bit)) * (2 ^ (bit % 8))
                      ELSE b[i]]

----------------------------------------------------------------------------
\* Floats.  IEEE 754 single of the ratio n / d (n, d > 0 small): long division
\* produces the 24 significant bits, round to nearest even.
RECURSIVE Norm(_, _, _)
Norm(n, d, e) == IF n >= 2 * d THEN Norm(n, 2 * d, e + 1)
                 ELSE IF n < d THEN Norm(2 * n, d, e - 1)
                 ELSE <<n, d, e>>
RECURSIVE DivBits(_, _, _, _)
DivBits(r, d, k, acc) ==   \* k more bits of r / d (r < 2d)
  IF k = 0 THEN <<acc, r>>
  ELSE IF r >= d THEN DivBits(2 * (r - d), d, k - 1, 2 * acc + 1)
  ELSE DivBits(2 * r, d, k - 1, 2 * acc)
F32Parts(sign, e, m) ==    \* m: 24 significant bits
  LET ex == e + 127
      f == m - 8388608
  IN <<f % 256, (f \div 256) % 256, (ex % 2) * 128 + (f \div 65536), sign * 128 + ex \div 2>>
F32OfRatio(n, d) ==
  IF n = 0 THEN <<0, 0, 0, 0>>
  ELSE LET nz == Norm(n, d, 0)
           q == DivBits(nz[1], nz[2], 24, 0)
           m == q[1]
           r == q[2]
           up == r > nz[2] \/ (r = nz[2] /\ m % 2 = 1)
           m2 == IF up THEN m + 1 ELSE m
       IN IF m2 = 16777216 THEN F32Parts(0, nz[3] + 1, 8388608)
          ELSE F32Parts(0, nz[3], m2)

MaxHeight == 400
HeightBytes == [n \in 0 .. MaxHeight |-> F32OfRatio(n, 100)]
HeightOf(b) == LET S == {n \in 0 .. MaxHeight : HeightBytes[n] = b}
               IN IF S = {} THEN -1 ELSE CHOOSE n \in S : TRUE

\* 32 bit float bytes -> 64 bit float bytes of the same number
F32to64(b) ==
  LET s == b[4] \div 128
      e8 == (b[4] % 128) * 2 + b[3] \div 128
      m == (b[3] % 128) * 65536 + b[2] * 256 + b[1]
      e == e8 + 896
  IN IF e8 = 0 THEN <<0, 0, 0, 0, 0, 0, 0, s * 128>>
     ELSE <<0, 0, 0, (m % 8) * 32, (m \div 8) % 256, (m \div 2048) % 256,
            (e % 16) * 16 + m \div 524288, s * 128 + e \div 16>>
\* 64 bit float bytes -> value (as a 32 bit one whenever that is exact)
DecF64(b) ==
  LET s == b[8] \div 128
      e == (b[8] % 128) * 16 + b[7] \div 16
      e8 == e - 896
      m == (b[7] % 16) * 524288 + b[6] * 2048 + b[5] * 8 + b[4] \div 32
  IN IF b = <<0, 0, 0, 0, 0, 0, 0, 0>> THEN <<3, 0, 0, 0, 0>>
     ELSE IF e8 >= 1 /\ e8 <= 254 /\ b[4] % 32 = 0 /\ b[3] = 0 /\ b[2] = 0 /\ b[1] = 0
     THEN <<3, m % 256, (m \div 256) % 256, (e8 % 2) * 128 + m \div 65536, s * 128 + e8 \div 2>>
     ELSE <<4>> \o b
EncF64(v) == IF v[1] = 4 THEN Tail(v) ELSE F32to64(Tail(v))
\* a 64 bit float as an integer number of 1/2^q, exact for dyadics of <= 21 bits
DyadicF64(b, q) ==
  LET e == (b[8] % 128) * 16 + b[7] \div 16 - 1023
      m == 1048576 + (b[7] % 16) * 65536 + b[6] * 256 + b[5]
      sh == e - 20 + q
      n == IF sh >= 0 THEN m * (2 ^ sh) ELSE m \div (2 ^ (0 - sh))
  IN IF e = -1023 THEN 0 ELSE IF b[8] >= 128 THEN 0 - n ELSE n
\* k / 2^q as a float value (k < 2^21): the single precision bytes
RECURSIVE DyadicVal(_, _)
DyadicVal(k, q) ==
  IF k = 0 THEN <<3, 0, 0, 0, 0>>
  ELSE IF k < 0 THEN [DyadicVal(0 - k, q) EXCEPT ![5] = @ + 128]
  ELSE <<3>> \o F32OfRatio(k, 2 ^ q)

----------------------------------------------------------------------------
\* The jumbled licensee: per character, at 0-based index i
IsAlnum(n) == (n >= 48 /\ n <= 57) \/ (n >= 65 /\ n <= 90) \/ (n >= 97 /\ n <= 122)
LicDecode(s) ==
  Flat([j \in DOMAIN s |->
    LET c1 == s[j] - 26 + (j - 1)
        c2 == s[j] + 49 + (j - 1)
    IN IF IsAlnum(c1) THEN <<c1>> ELSE IF IsAlnum(c2) THEN <<c2>> ELSE <<>>])
LicEncode(s) ==
  Flat([j \in DOMAIN s |->
    LET c1 == s[j] + 26 - (j - 1)
        c2 == s[j] - 49 - (j - 1)
    IN IF c1 > 0 /\ c1 <= 127 THEN <<c1>> ELSE IF c2 > 0 /\ c2 <= 127 THEN <<c2>> ELSE <<>>])

PathOf(cps) == <<12>> \o (IF cps = <<>> THEN <<46>> ELSE cps)
OfPath(v) == IF Tail(v) = <<46>> THEN <<>> ELSE Tail(v)
----------------------------------------------------------------------------
Pair(a, b) == <<7, Len(a)>> \o a \o <<Len(b)>> \o b
Fst(v) == SubSeq(v, 3, 2 + v[2])
Snd(v) == SubSeq(v, 4 + v[2], Len(v))

Dec(c, x, b, uni) ==
  CASE c = "u8"    -> DecU8(b)
    [] c = "i8"    -> DecI8(b)
    [] c = "u16"   -> DecU16(b)
    [] c = "i16"   -> DecI16(b)
    [] c = "u32"   -> DecU32(b)
    [] c = "i32"   -> DecI32(b)
    [] c = "milli32" -> <<15>> \o Tail(DecU32(b))
    [] c = "bool8" -> Bool(b[1] # 0)
    [] c = "bool32" -> Bool(b # <<0, 0, 0, 0>>)
    [] c = "f32"   -> <<3>> \o b
    [] c = "f64"   -> DecF64(b)
    [] c = "text"  -> <<5>> \o StripNul(IF uni THEN Utf16Dec(b) ELSE b)
    [] c = "path"  -> PathOf(StripNul(IF uni THEN Utf16Dec(b) ELSE b))
    [] c = "licensee" -> <<5>> \o LicDecode(StripNul(IF uni THEN Utf16Dec(b) ELSE b))
    [] c = "utf8"  -> <<5>> \o Utf8Dec(b)
    [] c = "bytes" -> <<6>> \o b
    [] c = "color" -> <<8>> \o b
    [] c = "pair16" -> Pair(DecU16(Slice(b, 0, 2)), DecU16(Slice(b, 2, 2)))
    [] c \in {"pair32", "loop32"} -> Pair(DecU32(Slice(b, 0, 4)), DecU32(Slice(b, 4, 4)))
    [] c = "pairf32" -> Pair(<<3>> \o Slice(b, 0, 4), <<3>> \o Slice(b, 4, 4))
    [] c \in {"bit8", "bit16", "bit32"} -> IntV(GetBit(b, x))
    [] c = "nbit32" -> IntV(1 - GetBit(b, x))
    [] c = "enum"  -> LET n == U16At(b, 0) + 1
                      IN IF b[3] = 0 /\ b[4] = 0 /\ n <= Len(EnumNames[x])
                         THEN <<5>> \o EnumNames[x][n] ELSE DecU32(b)
    [] c = "height" -> LET n == HeightOf(b) IN IF n < 0 THEN <<16>> ELSE <<5>> \o Digits(n) \o <<37>>
    [] c = "mtime" -> LET n == U16At(b, 0) + 65536 * (U16At(b, 2) % 4096)
                          r == n % 768
                      IN <<7, 3>> \o IntV(n \div 768) \o <<3>> \o IntV(r \div 48) \o <<3>> \o IntV((r % 48) * 5)
    [] c = "log2"  -> <<15>> \o Tail(DecI32(b))
    [] c = "lognorm" -> <<15, 0, U16At(b, 0)>>
    [] c = "notekey" -> LET n == U16At(b, 0) IN <<5>> \o NoteNames[(n % 12) + 1] \o Digits(n \div 12)
    [] c = "revmix" -> LET v == DecU32(b) IN IF v[2] >= 1 THEN <<2, v[2] - 1, v[3]>> ELSE v
    [] c = "revtype" -> LET v == DecU32(b) IN IF v[2] >= 1 THEN <<2, 1, 0>> ELSE <<2, 0, 0>>
    [] c = "tmpos" -> LET v == DecU32(b) IN IF v[2] >= 2048 THEN <<2, v[2] - 2048, v[3]>> ELSE v
    [] c = "tmtype" -> LET v == DecU32(b) IN IF v[2] >= 2048 THEN <<2, 2048, 0>> ELSE <<2, 0, 0>>
    [] c \in {"days32", "days32abs"} ->       \* multiples of 1/32 day = 2700 s
         LET k == DyadicF64(b, 5)
         IN <<17, k \div 32, (k % 32) * 2700>>
    [] OTHER -> <<16>>

\* A stored value which is equal to the assigned one keeps its bytes.
\* (text: terminators may be missing or doubled; flags: any byte but 0 is true)
TextOf(c, v) == CASE c = "path" -> OfPath(v) [] c = "licensee" -> LicEncode(Tail(v)) [] OTHER -> Tail(v)
KeepsBytes(c, x, v, old, uni) ==
  CASE c \in {"bool8", "bool32"} -> Dec(c, x, old, uni) = v
    [] c \in {"text", "path", "licensee"} -> StripNul(IF uni THEN Utf16Dec(old) ELSE old) = TextOf(c, v)
    [] OTHER -> FALSE
EncNew(c, x, v, old, uni) ==
  CASE c = "u8"    -> EncU8(v)
    [] c = "i8"    -> EncI8(v)
    [] c \in {"u16", "i16"} -> Enc16(v)
    [] c \in {"u32", "i32", "milli32"} -> Enc32(v)
    [] c = "bool8" -> <<v[3]>>
    [] c = "bool32" -> <<v[3], 0, 0, 0>>
    [] c = "f32"   -> Tail(v)
    [] c = "f64"   -> EncF64(v)
    [] c = "text"  -> IF uni THEN Utf16Enc(Tail(v)) \o <<0, 0>> ELSE Tail(v) \o <<0>>
    [] c = "path"  -> IF uni THEN Utf16Enc(OfPath(v)) \o <<0, 0>> ELSE OfPath(v) \o <<0>>
    [] c = "licensee" -> LET s == LicEncode(Tail(v))
                         IN IF uni THEN Utf16Enc(s) \o <<0, 0>> ELSE s \o <<0>>
    [] c = "utf8"  -> Utf8Enc(Tail(v))
    [] c = "bytes" -> Tail(v)
    [] c = "color" -> Tail(v)
    [] c = "pair16" -> Enc16(Fst(v)) \o Enc16(Snd(v))
    [] c \in {"pair32", "loop32"} -> Enc32(Fst(v)) \o Enc32(Snd(v))
    [] c = "pairf32" -> Tail(Fst(v)) \o Tail(Snd(v))
    [] c \in {"bit8", "bit16", "bit32"} -> SetBit(old, x, v[3])
    [] c = "nbit32" -> SetBit(old, x, 1 - v[3])
    [] c = "enum"  -> IF v[1] = 2 THEN Enc32(v)
                      ELSE LET n == CHOOSE i \in DOMAIN EnumNames[x] : EnumNames[x][i] = Tail(v)
                           IN <<n - 1, 0, 0, 0>>
    [] c = "height" -> LET n == CHOOSE n \in 0 .. MaxHeight : Digits(n) \o <<37>> = Tail(v)
                       IN HeightBytes[n]
    [] c = "mtime" -> LET n == v[5] * 768 + v[9] * 48 + v[13] \div 5
                      IN LE32(n)
    [] c = "log2"  -> Enc32(v)
    [] c = "lognorm" -> IF v[3] = 0 THEN <<0, 0, 0, 0>> ELSE LE16(v[3]) \o <<63, 0>>
    [] c = "notekey" -> IF v[1] = 2 THEN Enc16(v)
                        ELSE LET n == CHOOSE n \in 0 .. 131 :
                                        NoteNames[(n % 12) + 1] \o Digits(n \div 12) = Tail(v)
                             IN LE16(n)
    [] c = "revmix" -> LET o == DecU32(old) IN Enc32(<<2, v[2] + (IF o[2] >= 1 THEN 1 ELSE 0), v[3]>>)
    [] c = "revtype" -> LET o == DecU32(old)
                            m == IF o[2] >= 1 THEN <<2, o[2] - 1, o[3]>> ELSE o
                        IN Enc32(<<2, m[2] + v[2], m[3]>>)
    [] OTHER -> old

Enc(c, x, v, old, uni) ==
  IF KeepsBytes(c, x, v, old, uni) THEN old ELSE EncNew(c, x, v, old, uni)

\* Whether v can be stored at all; the other integers are accepted by an
\* assignment but the project cannot be saved while it holds them.
Fits(c, v, uni) ==
  CASE c = "u8"  -> FitsU8(v)
    [] c = "i8"  -> FitsI8(v)
    [] c = "u16" -> FitsU16(v)
    [] c = "i16" -> FitsI16(v)
    [] c = "u32" -> FitsU32(v)
    [] c = "i32" -> FitsI32(v)
    [] c = "text" -> uni \/ \A i \in 2 .. Len(v) : v[i] < 128
    [] OTHER -> TRUE
=============================================================================
