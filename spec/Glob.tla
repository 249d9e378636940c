-------------------------------- MODULE Glob --------------------------------
(***************************************************************************)
(* Patterns of the KEYS command: a sequence of tokens, parsed left to      *)
(* right.  Patterns and keys are sequences of characters: those of UTF-8,  *)
(* and a byte which is part of none by itself (a negative number).  Where  *)
(* the documented syntax leaves open what a pattern means (braces, classes *)
(* with several ranges, ...) it is unclear: any answer is fine.            *)
(***************************************************************************)
EXTENDS Bytes

Tail8(b) == b \in 128..191
\* the length of the character at i, 0 if there is none
CharLen(s, i) ==
  LET n == Len(s) - i
      a == s[i]
  IN IF a < 128 THEN 1
     ELSE IF n >= 1 /\ a \in 194..223 /\ Tail8(s[i + 1]) THEN 2
     ELSE IF /\ n >= 2 /\ a \in 224..239 /\ Tail8(s[i + 1]) /\ Tail8(s[i + 2])
             /\ (a = 224 => s[i + 1] >= 160) /\ (a = 237 => s[i + 1] <= 159) THEN 3
     ELSE IF /\ n >= 3 /\ a \in 240..244 /\ Tail8(s[i + 1]) /\ Tail8(s[i + 2]) /\ Tail8(s[i + 3])
             /\ (a = 240 => s[i + 1] >= 144) /\ (a = 244 => s[i + 1] <= 143) THEN 4
     ELSE 0

Chars(s) ==
  IF \A i \in DOMAIN s : s[i] < 128 THEN s
  ELSE LET RECURSIVE Go(_, _)
           Go(i, acc) ==
             IF i > Len(s) THEN acc
             ELSE LET w == CharLen(s, i)
                  IN CASE w = 0 -> Go(i + 1, Append(acc, 0 - s[i]))
                       [] w = 1 -> Go(i + 1, Append(acc, s[i]))
                       [] w = 2 -> Go(i + 2, Append(acc, (s[i] % 32) * 64 + (s[i + 1] % 64)))
                       [] w = 3 -> Go(i + 3, Append(acc, (s[i] % 16) * 4096 + (s[i + 1] % 64) * 64 + (s[i + 2] % 64)))
                       [] w = 4 -> Go(i + 4, Append(acc, (s[i] % 8) * 262144 + (s[i + 1] % 64) * 4096 + (s[i + 2] % 64) * 64 + (s[i + 3] % 64)))
       IN Go(1, <<>>)

Star == 42      \* *
Quest == 63     \* ?
LBr == 91       \* [
RBr == 93       \* ]
Bang == 33      \* !
Dash == 45      \* -
BSl == 92       \* \

LBrace == 123   \* {
Caret == 94     \* ^

Lit(c) == [k |-> "in", s |-> {c}]

\* the class that starts behind the bracket at position i: [ok, next, tok, clear]
Class(p, i) ==
  LET n == Len(p)
      neg == i <= n /\ p[i] = Bang
      j == IF neg THEN i + 1 ELSE i
      RECURSIVE Close(_)
      Close(m) == IF m > n THEN 0 ELSE IF p[m] = RBr THEN m ELSE Close(m + 1)
      c == Close(j)
      range == c = j + 3 /\ p[j + 1] = Dash
      set == IF range THEN p[j]..p[j + 2] ELSE {p[m] : m \in j..(c - 1)}
      odd == \E m \in j..(c - 1) : \/ p[m] \in {BSl, LBr, Bang}
                                   \/ p[m] = Caret /\ m = j
                                   \/ p[m] = Dash /\ ~(range /\ m = j + 1)
                                   \/ p[m] < 0 /\ range
  IN IF c = 0 \/ c = j THEN [ok |-> FALSE, next |-> 0, tok |-> Lit(0), clear |-> c = 0]
     ELSE IF range /\ p[j] > p[j + 2] THEN [ok |-> FALSE, next |-> 0, tok |-> Lit(0), clear |-> ~odd]
     ELSE [ok |-> TRUE, next |-> c + 1, tok |-> [k |-> IF neg THEN "out" ELSE "in", s |-> set], clear |-> ~odd]

\* [ok, toks, clear]
GlobParse(bytes) ==
  LET p == Chars(bytes)
      n == Len(p)
      RECURSIVE Go(_, _, _)
      Go(i, acc, clear) ==
        IF i > n THEN [ok |-> TRUE, toks |-> acc, clear |-> clear]
        ELSE IF p[i] = Star THEN Go(i + 1, Append(acc, [k |-> "star", s |-> {}]), clear)
        ELSE IF p[i] = Quest THEN Go(i + 1, Append(acc, [k |-> "out", s |-> {}]), clear)
        ELSE IF p[i] = BSl THEN IF i < n THEN Go(i + 2, Append(acc, Lit(p[i + 1])), clear) ELSE Go(i + 1, acc, FALSE)
        ELSE IF p[i] = LBr
          THEN LET c == Class(p, i + 1)
               IN IF c.ok THEN Go(c.next, Append(acc, c.tok), clear /\ c.clear) ELSE [ok |-> FALSE, toks |-> acc, clear |-> clear /\ c.clear]
        ELSE Go(i + 1, Append(acc, Lit(p[i])), clear /\ p[i] # LBrace)
  IN Go(1, <<>>, TRUE)

GlobMatch(toks, bytes) ==
  LET key == Chars(bytes)
      n == Len(toks)
      m == Len(key)
      Fits(t, c) == IF t.k = "in" THEN c \in t.s ELSE c \notin t.s
      RECURSIVE Go(_, _)
      Go(i, j) ==
        IF i > n THEN j > m
        ELSE IF toks[i].k = "star" THEN i = n \/ (\E x \in j..(m + 1) : Go(i + 1, x))
        ELSE j <= m /\ Fits(toks[i], key[j]) /\ Go(i + 1, j + 1)
  IN Go(1, 1)
=============================================================================
