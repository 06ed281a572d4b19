---------------------------- MODULE Transactions ----------------------------
(* What others may see of an operation on the database that consists of units *)
(* of work, each committed by itself, when a statement fails or the            *)
(* connection goes in the middle.  The trail of an operation is the contents   *)
(* others see after each of its statements when nothing fails: <<number of the *)
(* statement, contents>> for each change, from <<0, contents before>>.         *)
EXTENDS Integers, Sequences, FiniteSets

Before(trail) == trail[1][2]
Final(trail) == trail[Len(trail)][2]
SeenAt(trail, k) == LET j == CHOOSE j \in DOMAIN trail : trail[j][1] <= k /\ (j = Len(trail) \/ trail[j + 1][1] > k) IN trail[j][2]

\* faults are <<kind, number of the statement>>: the statement fails ("error"), fails with its transaction ("deadlock"), the connection
\* goes before it is executed ("drop"), or after it but before the answer ("ack")
Loses(kind) == kind \in {"drop", "ack"}
Left(trail, faults) == IF faults = <<>> THEN Final(trail)
                       ELSE LET f == faults[1] IN SeenAt(trail, IF f[1] = "ack" THEN f[2] ELSE f[2] - 1)
Connection(conn, faults) == IF \E j \in DOMAIN faults : Loses(faults[j][1]) THEN "lost" ELSE conn
=============================================================================
