------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings are sequences of numbers 0..255.  Integers of any size are *)
(* records [neg, d] with d the decimal digits, most significant first and  *)
(* without leading zeros; TLC's own integers have 32 bits only.  Decimal   *)
(* fractions are records [inf, neg, d, e] with the value d * 10^(-e), or an *)
(* infinity if inf # 0.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* characters *)

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Char(c) == SubSeq(Printable, c - 31, c - 31)
Code(ch) == 31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch)

\* the bytes of a TLA+ string of printable characters
B(str) == [i \in 1..Len(str) |-> Code(SubSeq(str, i, i))]

CR == 13
LF == 10
CRLF == <<CR, LF>>

IsDigit(c) == c >= 48 /\ c <= 57
LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(b) == [i \in DOMAIN b |-> LowerC(b[i])]

\* the TLA+ string of a short byte string, letters in lower case
Word(b) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(b) THEN "" ELSE Char(LowerC(b[i])) \o Go(i + 1)
  IN IF Len(b) > 14 \/ \E i \in DOMAIN b : b[i] < 32 \/ b[i] > 126 THEN "?" ELSE Go(1)

\* lexicographic order of bytes
BLess(a, b) ==
  LET n == Min2(Len(a), Len(b))
      RECURSIVE Cmp(_)
      Cmp(i) == IF i > n THEN Len(a) < Len(b)
                ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Cmp(i + 1)
  IN Cmp(1)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

-----------------------------------------------------------------------------
(* magnitudes: digit sequences *)

RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d

Zeros(n) == [i \in 1..n |-> 0]
PadL(d, n) == IF Len(d) >= n THEN d ELSE Zeros(n - Len(d)) \o d

MagLess(a, b) == LET n == Max2(Len(a), Len(b)) IN BLess(PadL(a, n), PadL(b, n))

MagAdd(a, b) ==
  LET n == Max2(Len(a), Len(b)) + 1
      x == PadL(a, n)
      y == PadL(b, n)
      RECURSIVE Go(_, _, _)
      Go(i, c, acc) == IF i = 0 THEN acc
                       ELSE LET s == x[i] + y[i] + c
                            IN Go(i - 1, s \div 10, <<s % 10>> \o acc)
  IN Strip(Go(n, 0, <<>>))

\* a >= b
MagSub(a, b) ==
  LET n == Len(a)
      y == PadL(b, n)
      RECURSIVE Go(_, _, _)
      Go(i, c, acc) == IF i = 0 THEN acc
                       ELSE LET s == a[i] - y[i] - c
                            IN Go(i - 1, IF s < 0 THEN 1 ELSE 0, <<(s + 10) % 10>> \o acc)
  IN Strip(Go(n, 0, <<>>))

-----------------------------------------------------------------------------
(* integers *)

Norm(neg, d) == LET s == Strip(d) IN [neg |-> neg /\ s # <<0>>, d |-> s]

ZeroI == [neg |-> FALSE, d |-> <<0>>]

IAdd(a, b) ==
  IF a.neg = b.neg THEN Norm(a.neg, MagAdd(a.d, b.d))
  ELSE IF MagLess(a.d, b.d) THEN Norm(b.neg, MagSub(b.d, a.d))
  ELSE Norm(a.neg, MagSub(a.d, b.d))

INeg(a) == Norm(~a.neg, a.d)

\* what Go's ParseInt with base 10 accepts: an optional sign and at least one digit
IsIntText(b) ==
  LET s == IF Len(b) > 0 /\ b[1] \in {43, 45} THEN 1 ELSE 0
  IN Len(b) > s /\ \A i \in (s + 1)..Len(b) : IsDigit(b[i])

RawInt(b) ==
  LET s == IF b[1] \in {43, 45} THEN 1 ELSE 0
  IN Norm(b[1] = 45, [i \in 1..(Len(b) - s) |-> b[i + s] - 48])

MaxMag == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinMag == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
Fits64(i) == ~MagLess(IF i.neg THEN MinMag ELSE MaxMag, i.d)

IsInt64(b) == IsIntText(b) /\ Fits64(RawInt(b))

\* the canonical text
IText(i) == (IF i.neg THEN <<45>> ELSE <<>>) \o [k \in DOMAIN i.d |-> i.d[k] + 48]

\* a TLC integer, clamped far outside of any container size
Big == 100000000
Clamp(i) ==
  LET m == IF Len(i.d) > 8 THEN Big
           ELSE LET RECURSIVE V(_, _)
                    V(k, acc) == IF k > Len(i.d) THEN acc ELSE V(k + 1, 10 * acc + i.d[k])
                IN V(1, 0)
  IN IF i.neg THEN -m ELSE m

FromNat(n) ==
  LET RECURSIVE D(_)
      D(k) == IF k < 10 THEN <<k>> ELSE D(k \div 10) \o <<k % 10>>
  IN [neg |-> FALSE, d |-> D(n)]

NatText(n) == IText(FromNat(n))

-----------------------------------------------------------------------------
(* decimal fractions, exact *)

Num(neg, d, e) ==
  LET RECURSIVE Cut(_, _)
      Cut(x, k) == IF k > 0 /\ x[Len(x)] = 0 /\ Len(x) > 1 THEN Cut(SubSeq(x, 1, Len(x) - 1), k - 1)
                   ELSE IF k > 0 /\ x = <<0>> THEN [d |-> <<0>>, e |-> 0]
                   ELSE [d |-> x, e |-> k]
      c == Cut(Strip(d), e)
  IN [inf |-> 0, neg |-> neg /\ c.d # <<0>>, d |-> c.d, e |-> c.e]

ZeroF == Num(FALSE, <<0>>, 0)
PosInf == [inf |-> 1, neg |-> FALSE, d |-> <<0>>, e |-> 0]
NegInf == [inf |-> -1, neg |-> TRUE, d |-> <<0>>, e |-> 0]

Scale(a, e) == a.d \o Zeros(e - a.e)

FAdd(a, b) ==  \* not for opposite infinities
  IF a.inf # 0 THEN a ELSE IF b.inf # 0 THEN b
  ELSE LET e == Max2(a.e, b.e)
           s == IAdd(Norm(a.neg, Scale(a, e)), Norm(b.neg, Scale(b, e)))
       IN Num(s.neg, s.d, e)

\* a multiple of 1/8 of moderate size: a binary floating-point number holds it, and sums of such, exactly
Exact(a) == a.inf = 0 /\ a.e <= 3 /\ Len(a.d) <= 13
            /\ LET x == PadL(Scale(a, 3), 3)
                   n == Len(x)
               IN (100 * x[n - 2] + 10 * x[n - 1] + x[n]) % 125 = 0

\* r is a + b up to the rounding of binary floating-point numbers: |r - (a + b)| <= (|a| + |b|) * 10^(-15)
Nearly(r, a, b) ==
  IF a.inf # 0 \/ b.inf # 0 \/ (Exact(a) /\ Exact(b)) THEN r = FAdd(a, b)
  ELSE LET e == Max2(r.e, Max2(a.e, b.e))
           I(x) == Norm(x.neg, Scale(x, e))
           diff == IAdd(I(r), INeg(IAdd(I(a), I(b))))
       IN r.inf = 0 /\ ~MagLess(MagAdd(I(a).d, I(b).d), diff.d \o Zeros(15))

\* out of the range of binary floating-point numbers, which ends at 1.797693134862315807...e308
Beyond(a) == a.inf = 0 /\ Len(a.d) - a.e >= 309
             /\ ~MagLess(a.d, <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8,1>> \o Zeros(291 + a.e))

FAddIsNaN(a, b) == a.inf # 0 /\ b.inf # 0 /\ a.inf # b.inf

FLess(a, b) ==
  IF a.inf # b.inf THEN a.inf < b.inf
  ELSE IF a.inf # 0 THEN FALSE
  ELSE IF a.neg # b.neg THEN a.neg
  ELSE LET e == Max2(a.e, b.e)
           x == Strip(Scale(a, e))
           y == Strip(Scale(b, e))
       IN IF a.neg THEN MagLess(y, x) ELSE MagLess(x, y)

\* Finite numbers as Go's ParseFloat reads them: digits with an optional point and an optional exponent;
\* hexadecimal numbers and underscores are left out.  ok is FALSE if the text is not a number.
NotNum == [ok |-> FALSE, nan |-> FALSE, v |-> ZeroF]
ParseFloat(b) ==
  LET sgn == Len(b) > 0 /\ b[1] \in {43, 45}
      neg == sgn /\ b[1] = 45
      t == Lower(IF sgn THEN Tail(b) ELSE b)
      n == Len(t)
      RECURSIVE Run(_)          \* first position at or after i that is not a digit
      Run(i) == IF i <= n /\ IsDigit(t[i]) THEN Run(i + 1) ELSE i
      i1 == Run(1)
      dot == i1 <= n /\ t[i1] = 46
      i2 == IF dot THEN Run(i1 + 1) ELSE i1
      int == [k \in 1..(i1 - 1) |-> t[k] - 48]
      frac == IF dot THEN [k \in 1..(i2 - i1 - 1) |-> t[k + i1] - 48] ELSE <<>>
      hasexp == i2 <= n /\ t[i2] = 101
      esgn == hasexp /\ i2 < n /\ t[i2 + 1] \in {43, 45}
      eneg == esgn /\ t[i2 + 1] = 45
      es == IF esgn THEN i2 + 2 ELSE i2 + 1
      i3 == IF hasexp THEN Run(es) ELSE i2
      mant == int \o frac
      ok == Len(mant) > 0 /\ i3 = n + 1 /\ (hasexp => i3 > es)
      ex == IF hasexp THEN Clamp(Norm(FALSE, [k \in 1..(i3 - es) |-> t[k + es - 1] - 48])) ELSE 0
      e == Len(frac) + (IF eneg THEN ex ELSE -ex)
      zero == \A k \in DOMAIN mant : mant[k] = 0
      \* decimal exponent of the first digit that is not 0
      mag == Len(Strip(mant)) - e
      v == IF e >= 0 THEN Num(neg, mant, e) ELSE Num(neg, mant \o Zeros(-e), 0)
  IN IF Word(t) \in {"inf", "infinity"} THEN [ok |-> TRUE, nan |-> FALSE, v |-> IF neg THEN NegInf ELSE PosInf]
     ELSE IF Word(t) = "nan" /\ ~sgn THEN [ok |-> TRUE, nan |-> TRUE, v |-> ZeroF]
     ELSE IF ~ok THEN NotNum
     ELSE IF zero THEN [ok |-> TRUE, nan |-> FALSE, v |-> ZeroF]
     ELSE IF mag > 309 \/ Beyond(v) THEN NotNum      \* out of range
     ELSE [ok |-> TRUE, nan |-> FALSE, v |-> v]

=============================================================================
