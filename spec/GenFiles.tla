------------------------------ MODULE GenFiles ------------------------------
(***************************************************************************)
(* All files of up to DEPTH lines of a small alphabet.  TLC checks laws of *)
(* GenTable on them and prints those on which the generator is run.        *)
(***************************************************************************)
EXTENDS GenTable, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)

Text == <<
  "// a",
  "// Foo Bar.",
  "//",
  "",
  "func Foo(c *Command) (*protocol.Response, error) { return nil, nil }",
  "func x_1(c *Command) (*protocol.Response, error) { return nil, nil } // b",
  "func (m T) Foo(c *Command) (*protocol.Response, error) { return nil, nil }",
  "func Bar(c *Command) (*protocol.Response, bool) { return nil, true }",
  "/*",
  "*/",
  "var x = `",
  "`",
  "const q = '`'" >>

Lines == TLCEval([i \in DOMAIN Text |-> B(Text[i])])
File(f) == [k \in DOMAIN f |-> Lines[f[k]]]

VARIABLE f

Init == f = <<>> /\ PrintT(<<"LINES", ToJson(Text)>>)

\* the declarations of a file begin after its package clause, and it ends in none of them
Ended(g) == Modes(File(g))[Len(g) + 1] = "code"

Next == Len(f) < Depth /\ \E i \in DOMAIN Text : f' = Append(f, i)

Script == (\E k \in DOMAIN f : f[k] \in {5, 6, 7, 8}) /\ Ended(f) => PrintT(<<"SCRIPT", ToJson(f)>>)

\* a line takes nothing away from the table, and adds one entry at most
Grows ==
  f # <<>> => LET old == Handlers(File(SubSeq(f, 1, Len(f) - 1)))
                  new == Handlers(File(f))
              IN Len(new) <= Len(old) + 1 /\ SubSeq(new, 1, Len(old)) = old

\* every entry is of a line that looks like a handler; every such line has one unless it is hidden
Complete ==
  LET h == Handlers(File(f))
      m == Modes(File(f))
      shown == SelectSeq([k \in DOMAIN f |-> k], LAMBDA k : f[k] \in {5, 6} /\ m[k] = "code")
  IN /\ Len(h) = Len(shown)
     /\ \A k \in DOMAIN shown :
          LET p == shown[k]
          IN /\ h[k][2] = (IF f[p] = 5 THEN B("Foo") ELSE B("x_1"))
             /\ h[k][1] = (IF p > 1 /\ m[p - 1] = "code" /\ f[p - 1] = 1 THEN B("a")
                           ELSE IF p > 1 /\ m[p - 1] = "code" /\ f[p - 1] = 2 THEN B("foo bar") ELSE Lower(h[k][2]))

\* a comment or string that is opened and not closed hides what follows
Hidden == \A k \in DOMAIN f : f[k] \in {9, 11} /\ Modes(File(f))[k] = "code" =>
            \/ Modes(File(f))[k + 1] # "code"

Spec == Init /\ [][Next]_f
=============================================================================
