----------------------------- MODULE ExpoTrace -----------------------------
(* Reads serialized texts line by line and compares the parsed document    *)
(* with the families that were given to the serializer. A trace is         *)
(*   fams    the given families                                            *)
(*   texts   the distinct texts the serializer produced for them under all *)
(*           tried stream states and locales, split at line feeds          *)
(*   state   for each try the formatting state of the stream, <<before,    *)
(*           after>>                                                       *)
EXTENDS Exposition, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, doc
vars == <<tr, l, doc>>
T == Traces[tr]
Lines == T.texts[1]

Init == tr \in 1..Len(Traces) /\ l = 0 /\ doc = Doc0

OneText == Len(T.texts) = 1 /\ \A i \in 1..Len(T.state) : T.state[i][1] = T.state[i][2]

Start == l = 0 /\ OneText /\ l' = 1 /\ UNCHANGED <<tr, doc>>

(* the text after the last line feed must be empty *)
Read == /\ l >= 1 /\ l <= Len(Lines)
        /\ (l = Len(Lines)) => Lines[l] = <<>>
        /\ doc' = ReadLine(doc, Lines[l])
        /\ doc'.ok
        /\ l' = l + 1 /\ UNCHANGED tr

Finish == /\ l = Len(Lines) + 1
          /\ Len(doc.blocks) = Len(T.fams)
          /\ (\A i \in 1..Len(T.fams) : BlockIs(doc.blocks[i], T.fams[i])) = TRUE  \* not branches
          /\ l' = l + 1 /\ doc' = Doc0 /\ UNCHANGED tr
Done == l = Len(Lines) + 2 /\ UNCHANGED vars
Next == (l = 0 /\ Start) \/ (l > 0 /\ (Read \/ Finish \/ Done))
Spec == Init /\ [][Next]_vars
Alias == [tr |-> tr, l |-> l]
=============================================================================
