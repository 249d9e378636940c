-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Behaviours of Store.tla over a small alphabet of command lines: TLC     *)
(* explores the stores they lead to, checks Laws.tla for each of them and  *)
(* every command line on it, and prints, for every store reached and every *)
(* command line, a script that leads there and runs it.  The scripts are   *)
(* executed on the real server.  With WINDOW n two ways to the same store  *)
(* are told apart if their last n changing commands differ.                *)
(***************************************************************************)
EXTENDS Laws, Alphabets, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Window == atoi(IOEnv.WINDOW)
Lines == TLCEval(Alphabet(IOEnv.ALPHA))

\* the words of a line
Words2(line) ==
  LET RECURSIVE Go(_, _, _)
      Go(i, w, acc) ==
        IF i > Len(line) THEN Append(acc, w)
        ELSE LET ch == SubSeq(line, i, i)
             IN IF ch = " " THEN Go(i + 1, <<>>, Append(acc, w)) ELSE Go(i + 1, Append(w, Code(ch)), acc)
  IN Go(1, <<>>, <<>>)

Cmds == TLCEval([i \in DOMAIN Lines |-> Words2(Lines[i])])

VARIABLES db, hist
vars == <<db, hist>>

Init == db = EmptyDb /\ hist = <<>> /\ PrintT(<<"LINES", ToJson(Lines)>>)

Next ==
  \E i \in DOMAIN Lines :
    \E o \in Outs(db, Cmds[i]) :
      /\ PrintT(<<"SCRIPT", ToJson(Append(hist, i))>>)
      /\ Changed(db, o.db) # {}
      /\ Len(hist) < Depth - 1
      /\ db' = o.db
      /\ hist' = Append(hist, i)

Spec == Init /\ [][Next]_vars

LawsHold == Laws(db)
CommandsAllowed == \A i \in DOMAIN Cmds : Allowed(db, Cmds[i])

View == <<db, IF Len(hist) <= Window THEN hist ELSE SubSeq(hist, Len(hist) - Window + 1, Len(hist))>>
=============================================================================
