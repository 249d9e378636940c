----------------------------- MODULE GenTable ------------------------------
(***************************************************************************)
(* The generator of the command table.  A source file is a sequence of     *)
(* lines.  A handler is a line, not within a comment or a string, which    *)
(* declares a function of the one signature.  It is registered under the   *)
(* name in the comment line directly above it, or under its own.           *)
(***************************************************************************)
EXTENDS Bytes

SLASH == Code("/")
QUOTE == Code("\"")
APOS == Code("'")
TICK == Code("`")
STAR == Code("*")
BACKSL == Code("\\")
UNDER == Code("_")
FUNC == B("func ")
DOT == B(".")
COMMENT == B("//")
GO == B(".go")
CMDGO == B(".cmd.go")
Signature == B("(c *Command) (*protocol.Response, error)")

-----------------------------------------------------------------------------
(* comments and strings: an automaton which reads a file byte by byte *)

Open(c) ==
  CASE c = SLASH -> "slash"
    [] c = QUOTE -> "string"
    [] c = APOS -> "rune"
    [] c = TICK -> "raw"
    [] OTHER -> "code"

LexStep(m, c) ==
  CASE m = "code" -> Open(c)
    [] m = "slash" -> IF c = SLASH THEN "line" ELSE IF c = STAR THEN "block" ELSE Open(c)
    [] m = "line" -> "line"
    [] m = "block" -> IF c = STAR THEN "star" ELSE "block"
    [] m = "star" -> IF c = SLASH THEN "code" ELSE IF c = STAR THEN "star" ELSE "block"
    [] m = "raw" -> IF c = TICK THEN "code" ELSE "raw"
    [] m = "string" -> IF c = QUOTE THEN "code" ELSE IF c = BACKSL THEN "stringesc" ELSE "string"
    [] m = "rune" -> IF c = APOS THEN "code" ELSE IF c = BACKSL THEN "runeesc" ELSE "rune"
    [] m = "stringesc" -> "string"
    [] m = "runeesc" -> "rune"

NewLine(m) == IF m = "star" THEN "block" ELSE IF m \in {"block", "raw"} THEN m ELSE "code"

\* where each line begins
Modes(lines) == FoldLeft(LAMBDA acc, l : Append(acc, NewLine(FoldLeft(LexStep, acc[Len(acc)], l))), <<"code">>, lines)

-----------------------------------------------------------------------------
(* lines *)

IsWord(c) == IsDigit(c) \/ (LowerC(c) >= 97 /\ LowerC(c) <= 122) \/ c = UNDER
IsBlank(c) == c = 32 \/ (c >= 9 /\ c <= 13)

TrimLeft(b) == LET i == SelectInSeq(b, LAMBDA c : ~IsBlank(c)) IN IF i = 0 THEN <<>> ELSE SubSeq(b, i, Len(b))
TrimRight(b) == LET i == SelectLastInSeq(b, LAMBDA c : ~IsBlank(c)) IN SubSeq(b, 1, i)
Trim(b) == TrimRight(TrimLeft(b))

\* the name of the function which a line declares as a handler, or <<>>
HandlerName(l) ==
  IF ~StartsWith(l, FUNC) THEN <<>>
  ELSE LET rest == SubSeq(l, 6, Len(l))
           n == SelectInSeq(rest, LAMBDA c : ~IsWord(c)) - 1
       IN IF n > 0 /\ ~IsDigit(rest[1]) /\ StartsWith(SubSeq(rest, n + 1, Len(rest)), Signature) THEN SubSeq(rest, 1, n) ELSE <<>>

\* the name in a comment line, or <<>>
CommentName(l) ==
  LET t == Trim(l)
      u == IF EndsWith(t, DOT) THEN SubSeq(t, 1, Len(t) - 1) ELSE t
  IN IF StartsWith(t, COMMENT) THEN Lower(Trim(SubSeq(u, 3, Len(u)))) ELSE <<>>

Handlers(lines) ==
  LET modes == Modes(lines)
      Entry(k) ==
        LET f == HandlerName(lines[k])
            above == IF k > 1 /\ modes[k - 1] = "code" THEN CommentName(lines[k - 1]) ELSE <<>>
        IN IF modes[k] # "code" \/ f = <<>> THEN <<>> ELSE <<<<IF above # <<>> THEN above ELSE Lower(f), f>>>>
  IN FlattenSeq([k \in 1..Len(lines) |-> Entry(k)])

IsSource(name) == EndsWith(name, GO) /\ ~EndsWith(name, CMDGO)
Generated(name) == SubSeq(name, 1, Len(name) - 3) \o CMDGO
=============================================================================
