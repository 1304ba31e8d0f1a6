-------------------------------- MODULE Ints --------------------------------
(***************************************************************************)
(* Integers and their texts.                                               *)
(*                                                                         *)
(* A value of an integer type is its bit pattern, as little-endian 16-bit  *)
(* words (one word, below 256, for the 8-bit types).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bytes

D == INSTANCE BigNat WITH B <- 10000          \* decimal limbs
X == INSTANCE BigNat WITH B <- 256            \* binary limbs (bytes)

IntTypes == {"i8", "u8", "i16", "u16", "i32", "u32", "il", "ul", "i64", "u64"}
EnumTypes == {"ei8", "eu8", "ei16", "eu16", "ei32", "eu32", "ei64", "eu64",
              "eplain", "echar", "elong", "ebool", "ewchar", "ec16", "ec32", "eulong", "eflag"}
(* Everything that is written and read as a number. *)
NumericTypes == IntTypes \cup EnumTypes \cup {"fpos"}

Bytes_(t) == CASE t \in {"i8", "u8", "ei8", "eu8", "echar", "ebool"} -> 1
               [] t \in {"i16", "u16", "ei16", "eu16", "ec16", "eflag"} -> 2
               [] t \in {"i32", "u32", "ei32", "eu32", "eplain", "ewchar", "ec32"} -> 4
               [] OTHER -> 8
Signed(t) == t \in {"i8", "i16", "i32", "il", "i64", "ei8", "ei16", "ei32", "ei64",
                    "eplain", "echar", "elong", "ewchar", "fpos"}

Words(t) == IF Bytes_(t) = 1 THEN 1 ELSE Bytes_(t) \div 2
TopWord(t) == IF Bytes_(t) = 1 THEN 256 ELSE 65536        \* range of the top word

IsNeg(t, v) == Signed(t) /\ v[Words(t)] >= TopWord(t) \div 2

(* 2^(8 * bytes), in decimal limbs *)
Pow2_8 == D!Of(256)
Pow2_16 == D!Of(65536)
Pow2_32 == D!Mul(Pow2_16, Pow2_16)
Pow2_64 == D!Mul(Pow2_32, Pow2_32)
Modulus(t) == CASE Bytes_(t) = 1 -> Pow2_8 [] Bytes_(t) = 2 -> Pow2_16
                [] Bytes_(t) = 4 -> Pow2_32 [] OTHER -> Pow2_64

Magnitude(t, v) == IF IsNeg(t, v) THEN D!Sub(Modulus(t), D!FromWords(v)) ELSE D!FromWords(v)

(* Decimal digits (most significant first, as values) of a decimal-limb number. *)
Limb4(x) == <<x \div 1000, (x \div 100) % 10, (x \div 10) % 10, x % 10>>
TopLimb(x) == IF x >= 1000 THEN Limb4(x)
              ELSE IF x >= 100 THEN <<x \div 100, (x \div 10) % 10, x % 10>>
              ELSE IF x >= 10 THEN <<x \div 10, x % 10>>
              ELSE <<x>>
Digits(n) == IF n = <<>> THEN <<0>>
             ELSE FoldLeft(LAMBDA acc, x : acc \o Limb4(x), TopLimb(n[Len(n)]),
                           Reverse(SubSeq(n, 1, Len(n) - 1)))
DigitText(ds) == [i \in 1 .. Len(ds) |-> ds[i] + 48]

(* The canonical numeral of value v of type t. *)
IntText(t, v) == LET m == DigitText(Digits(Magnitude(t, v)))
                 IN IF IsNeg(t, v) THEN <<MINUS>> \o m ELSE m

(***************************************************************************)
(* Reading.  The lexer passes through white space, sign, digits; whatever  *)
(* follows is ignored.                                                     *)
(***************************************************************************)
LexInt(s) ==
  LET i0 == SkipSpace(s, 1)
      neg == Chr(s, i0) = MINUS
      i1 == IF Chr(s, i0) \in {PLUS, MINUS} THEN i0 + 1 ELSE i0
      i2 == SkipDigits(s, i1)
      z  == SkipZeros(s, i1)
  IN [neg |-> neg, any |-> i2 > i1,
      ds |-> IF z >= i2 THEN <<>> ELSE DigitVals(SubSeq(s, z, i2 - 1))]

Full(b, n) == [i \in 1 .. n |-> IF i <= Len(b) THEN b[i] ELSE 0]
AllOnes == [i \in 1 .. 8 |-> 255]
Negate(b) ==     \* two's complement of an 8-byte word
  LET r == FoldLeft(LAMBDA a, x : LET t == (255 - x) + a[2] IN <<Append(a[1], t % 256), t \div 256>>,
                    <<<<>>, 1>>, b)
  IN r[1]

(* The 8 bytes an integer extraction works with. *)
ReadWord(s) ==
  LET l == LexInt(s)
      n == IF Len(l.ds) > 20 THEN <<>> ELSE X!FromDigits(l.ds, 10)
  IN IF Len(l.ds) > 20 \/ Len(n) > 8 THEN AllOnes
     ELSE IF l.neg THEN Negate(Full(n, 8)) ELSE Full(n, 8)

(* ... reduced to the requested type. *)
ReadInt(t, s) ==
  LET b == ReadWord(s)
  IN IF Bytes_(t) = 1 THEN <<b[1]>>
     ELSE [i \in 1 .. Words(t) |-> b[2 * i - 1] + 256 * b[2 * i]]
=============================================================================
