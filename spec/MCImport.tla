------------------------------ MODULE MCImport -------------------------------
(* Clients import files in any interleaving, and crash.  The last record of a  *)
(* file and the first of the next may be of the same minute (midnight).        *)
EXTENDS Import, TLC, Json

CONSTANTS Clients, Files, Length, Shared, Crashes, Depth, Out

VARIABLES stored, client, crashes, whole, history
vars == <<stored, client, crashes, whole, history>>

Records == Files \X (1..Length)
\* the k-th record of a file; files follow each other
Stamps == [r \in Records |-> (r[1] - 1) * (IF Shared THEN Length - 1 ELSE Length) + r[2]]
Idle == <<>>
Init == /\ stored = {} /\ client = [c \in Clients |-> Idle] /\ crashes = 0 /\ whole = {} /\ history = <<>>
Log(step) == history' = IF Depth = 0 THEN history ELSE Append(history, step)
Open(c, f) == /\ client[c] = Idle /\ client' = [client EXCEPT ![c] = <<f, 1>>] /\ Log(<<"open", c, f>>)
              /\ UNCHANGED <<stored, crashes, whole>>
Export(c) == /\ client[c] # Idle /\ Log(<<"put", c>>) /\ UNCHANGED crashes
             /\ stored' = Put(stored, Stamps, client[c])
             /\ LET f == client[c][1] k == client[c][2] IN
                /\ client' = [client EXCEPT ![c] = IF k = Length THEN Idle ELSE <<f, k + 1>>]
                /\ whole' = IF k = Length THEN whole \cup {f} ELSE whole
Crash(c) == /\ client[c] # Idle /\ crashes < Crashes /\ crashes' = crashes + 1 /\ client' = [client EXCEPT ![c] = Idle] /\ Log(<<"crash", c>>)
            /\ UNCHANGED <<stored, whole>>
Next == (Depth = 0 \/ Len(history) < Depth) /\ \E c \in Clients : (\E f \in Files : Open(c, f)) \/ Export(c) \/ Crash(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Export(c)) /\ \A f \in Files : SF_vars(Open(c, f))

OneRow == \A q, r \in stored : q # r => Stamps[q] # Stamps[r]
\* a file imported to its end, whoever else was at work, is there
Whole == \A f \in whole : \A k \in 1..Length : IsThere(stored, Stamps, <<f, k>>)
Kept == [][stored \subseteq stored']_vars
\* importing again adds nothing
Again == [][\A c \in Clients : (client[c] # Idle /\ client[c][1] \in whole /\ client'[c] # client[c] /\ client'[c] # Idle) => stored' = stored]_vars
\* whatever happens, in the end everything is there
InTheEnd == <>[](\A r \in Records : IsThere(stored, Stamps, r))

GenNext == /\ Next
           /\ (Out /\ Len(history') = Depth) => PrintT("BEHAVIOUR " \o ToJson(history'))
=============================================================================
