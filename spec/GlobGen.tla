------------------------------ MODULE GlobGen -------------------------------
(***************************************************************************)
(* All patterns of up to DEPTH of these characters.  TLC checks the laws   *)
(* which say what Glob.tla means, for each of them and all small keys, and *)
(* prints the patterns, which are then asked of the real server.  The laws  *)
(* are checked for those of up to LAWS characters.                         *)
(***************************************************************************)
EXTENDS Glob, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)

\* a, b, e with an accent (two bytes), a byte which is no character, and what is special
Atoms == <<<<97>>, <<98>>, <<195, 169>>, <<255>>, <<Star>>, <<Quest>>, <<LBr>>, <<RBr>>, <<Bang>>, <<Dash>>, <<BSl>>>>

Letters == <<<<97>>, <<98>>, <<99>>, <<195, 169>>, <<255>>, <<Star>>, <<RBr>>>>

\* all keys of up to two letters, and some of three
Keys == TLCEval({<<>>} \cup {Letters[i] : i \in DOMAIN Letters} \cup {Letters[i] \o Letters[j] : i, j \in DOMAIN Letters}
          \cup {Letters[i] \o Letters[j] \o Letters[k] : i, j, k \in {1, 2, 4}})

VARIABLES p
vars == <<p>>

Cat(s) == IF s = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
Text == Cat([i \in DOMAIN p |-> Atoms[p[i]]])

Init == p = <<>> /\ PrintT(<<"KEYS", ToJson(Keys)>>)

Next == \E a \in DOMAIN Atoms : /\ Len(p) < Depth
                                /\ p' = Append(p, a)
                                /\ PrintT(<<"PATTERN", ToJson(Cat([i \in DOMAIN p' |-> Atoms[p'[i]]]))>>)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------

G == GlobParse(Text)
Toks == G.toks
M(t, k) == GlobMatch(t, k)

\* the ways to cut a key in two between characters
Cuts(k) == LET c == Chars(k) IN {n \in 0..Len(k) : Chars(SubSeq(k, 1, n)) \o Chars(SubSeq(k, n + 1, Len(k))) = c}

\* one token: a star takes any key, the others one character
OneToken ==
  G.ok /\ Len(Toks) = 1 =>
    \A k \in Keys : M(Toks, k) = CASE Toks[1].k = "star" -> TRUE
                                   [] OTHER -> Len(Chars(k)) = 1 /\ ((Chars(k)[1] \in Toks[1].s) = (Toks[1].k = "in"))

\* no token takes the empty key only
NoToken == Toks = <<>> => \A k \in Keys : M(Toks, k) = (k = <<>>)

\* two parts take what can be cut into what they take
Parts ==
  G.ok /\ Len(Toks) > 1 =>
    \A k \in Keys : \A n \in 1..(Len(Toks) - 1) :
       M(Toks, k) = \E c \in Cuts(k) : M(SubSeq(Toks, 1, n), SubSeq(k, 1, c)) /\ M(SubSeq(Toks, n + 1, Len(Toks)), SubSeq(k, c + 1, Len(k)))

\* a quoted key is a pattern which takes this key only
Quoted(k) == FoldLeft(LAMBDA a, c : a \o <<BSl, c>>, <<>>, k)
Quoting ==
  \A k \in Keys : (\A i \in DOMAIN k : k[i] < 128) =>
     LET g == GlobParse(Quoted(k)) IN g.ok /\ g.clear /\ \A x \in Keys : GlobMatch(g.toks, x) = (x = k)

Laws == Len(p) <= atoi(IOEnv.LAWS) => OneToken /\ NoToken /\ Parts /\ (p = <<>> => Quoting)
=============================================================================
