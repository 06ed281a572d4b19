--------------------------- MODULE MCTransactions ---------------------------
(* The exporter's way of working, statement by statement, against a server     *)
(* with repeatable-read transactions, two exporters, and faults anywhere: in   *)
(* reads, writes, commits, the rollback after a failure, or between operations.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth,        \* operations and session actions in all
          Faults,       \* at most so many faults
          RollBack,     \* whether a failed operation is rolled back (TRUE in the exporter)
          Sessions, Out

T == INSTANCE Transactions

VARIABLES committed, tx, conn, run, history, faults, report, open
vars == <<committed, tx, conn, run, history, faults, report, open>>

\* contents: how many records there are, and of how many records the derived rows are; Half is a row inserted but not filled
Half == -1
Keys == {"records", "day", "week", "event"}
Units(op) == CASE op = "export" -> <<"records">> [] op = "bad" -> <<"records">> [] op = "recalculate" -> <<"day", "week">>
               [] op = "detect" -> <<"event">> [] op = "newest" -> <<"none">>
Operations == {"export", "bad", "recalculate", "detect", "newest"}
Statements(op) == CASE op = "export" -> <<"insert", "commit">> [] op = "bad" -> <<"refused", "commit">> [] op = "newest" -> <<"read", "commit">>
                    [] OTHER -> <<"read", "insert", "update", "commit">>

\* what one unit does to the contents
Done(c, key) == IF key = "none" THEN c ELSE IF key = "records" THEN [c EXCEPT !.records = @ + 1] ELSE [c EXCEPT ![key] = c.records]
RECURSIVE TrailFrom(_, _, _, _)
TrailFrom(c, op, u, n) == IF u > Len(Units(op)) \/ op = "bad" THEN <<>>
                          ELSE LET d == Done(c, Units(op)[u]) last == n + Len(Statements(op)) IN
                               (IF d = c THEN <<>> ELSE <<<<last, d>>>>) \o TrailFrom(d, op, u + 1, last)
Trail(c, op) == <<<<0, c>>>> \o TrailFrom(c, op, 1, 0)

NoTx == [open |-> FALSE, snap |-> <<>>, writes |-> [k \in {} |-> 0]]
Idle == [op |-> "", unit |-> 0, statement |-> 0, count |-> 0, trail |-> <<>>, fired |-> <<>>, failing |-> FALSE]

\* what the session sees, reading in its transaction
View(s) == LET base == IF tx[s].open THEN tx[s].snap ELSE committed IN
           [k \in Keys |-> IF k \in DOMAIN tx[s].writes THEN tx[s].writes[k] ELSE base[k]]
Begun(s) == IF tx[s].open THEN tx[s] ELSE [open |-> TRUE, snap |-> committed, writes |-> [k \in {} |-> 0]]
Write(s, key, v) == [Begun(s) EXCEPT !.writes = (key :> v) @@ @]

Init == /\ committed = [k \in Keys |-> 0] /\ tx = [s \in Sessions |-> NoTx] /\ conn = [s \in Sessions |-> "up"]
        /\ run = [s \in Sessions |-> Idle] /\ history = <<>> /\ faults = 0 /\ report = <<>> /\ open = Sessions

AllIdle == \A s \in Sessions : run[s].op = ""
Ready == AllIdle /\ Len(history) < Depth

Begin(s, op) == /\ Ready /\ history' = Append(history, <<"op", s, op>>) /\ report' = <<>>
                /\ run' = [run EXCEPT ![s] = [Idle EXCEPT !.op = op, !.unit = 1, !.statement = 1, !.trail = Trail(committed, op)]]
                /\ UNCHANGED <<committed, tx, conn, faults, open>>

\* the operation ends with out; r is its run so far
End(s, r, out) == /\ run' = [run EXCEPT ![s] = Idle]
                  /\ report' = <<[s |-> s, op |-> r.op, out |-> out, trail |-> r.trail, fired |-> r.fired]>>

\* after a failure the client rolls back, if the connection is still there as far as it knows
Fail(s, r, c) == IF c = "up" /\ RollBack THEN run' = [run EXCEPT ![s] = [r EXCEPT !.failing = TRUE]] /\ UNCHANGED report
                    ELSE End(s, r, "error")

Statement(s, fault) ==
  LET r == run[s]
      what == Statements(r.op)[r.statement]
      key == Units(r.op)[r.unit]
      n == r.count + 1
      r1 == [r EXCEPT !.count = n, !.fired = IF fault = "" THEN @ ELSE Append(@, <<fault, n>>)]
      own == what = "refused"           \* the server refuses the statement itself
      after == [k \in Keys |-> IF k \in DOMAIN tx[s].writes THEN tx[s].writes[k] ELSE committed[k]]
      last == r.statement = Len(Statements(r.op))
      value == IF key = "records" THEN View(s).records + 1 ELSE IF what = "insert" /\ View(s)[key] = 0 THEN Half
               ELSE IF what = "insert" THEN View(s)[key] ELSE View(s).records
      effect == CASE what = "commit" -> NoTx [] what = "read" -> Begun(s) [] what = "refused" -> Begun(s) [] OTHER -> Write(s, key, value)
  IN /\ r.op # "" /\ ~r.failing
     /\ UNCHANGED <<history>>
     /\ IF conn[s] # "up" THEN End(s, r, "error") /\ UNCHANGED <<committed, tx, conn, faults, open>>
        ELSE /\ faults' = IF fault = "" THEN faults ELSE faults + 1
             /\ committed' = IF what = "commit" /\ fault \in {"", "ack"} THEN after ELSE committed
             /\ conn' = IF T!Loses(fault) THEN [conn EXCEPT ![s] = "lost"] ELSE conn
             /\ open' = IF T!Loses(fault) THEN open \ {s} ELSE open
             /\ tx' = [tx EXCEPT ![s] = IF fault \in {"deadlock", "drop", "ack"} THEN NoTx ELSE IF fault = "error" THEN Begun(s) ELSE effect]
             /\ IF fault # "" \/ own THEN Fail(s, r1, conn'[s])
                ELSE IF ~last THEN run' = [run EXCEPT ![s] = [r1 EXCEPT !.statement = @ + 1]] /\ UNCHANGED report
                ELSE IF r.unit < Len(Units(r.op)) THEN run' = [run EXCEPT ![s] = [r1 EXCEPT !.statement = 1, !.unit = @ + 1]] /\ UNCHANGED report
                ELSE End(s, r1, "ok")
RolledBack(s, fault) ==
  LET r == run[s] r1 == [r EXCEPT !.count = @ + 1, !.fired = IF fault = "" THEN @ ELSE Append(@, <<fault, r.count + 1>>)] IN
  /\ r.op # "" /\ r.failing /\ fault \in {"", "drop"} /\ UNCHANGED <<history, committed>>
  /\ faults' = IF fault = "" THEN faults ELSE faults + 1
  /\ tx' = [tx EXCEPT ![s] = NoTx]
  /\ conn' = IF fault = "drop" THEN [conn EXCEPT ![s] = "lost"] ELSE conn
  /\ open' = IF fault = "drop" THEN open \ {s} ELSE open
  /\ End(s, r1, "error")

Lose(s) == /\ Ready /\ conn[s] = "up" /\ faults < Faults /\ faults' = faults + 1
           /\ conn' = [conn EXCEPT ![s] = "lost"] /\ tx' = [tx EXCEPT ![s] = NoTx] /\ open' = open \ {s}
           /\ history' = Append(history, <<"lose", s>>) /\ report' = <<>> /\ UNCHANGED <<committed, run>>
\* whether or not closing fails, the connection is dropped
Disconnect(s) == /\ Ready /\ conn' = [conn EXCEPT ![s] = "none"] /\ tx' = [tx EXCEPT ![s] = NoTx] /\ open' = open \ {s}
                 /\ history' = Append(history, <<"disconnect", s>>) /\ report' = <<>> /\ UNCHANGED <<committed, run, faults>>
Connect(s) == /\ Ready /\ conn[s] # "up" /\ conn' = [conn EXCEPT ![s] = "up"] /\ open' = open \cup {s}
              /\ history' = Append(history, <<"connect", s>>) /\ report' = <<>> /\ UNCHANGED <<committed, tx, run, faults>>

FaultKinds == IF faults < Faults THEN {"", "error", "deadlock", "drop", "ack"} ELSE {""}
Next == \E s \in Sessions : \/ \E op \in Operations : Begin(s, op)
                            \/ \E f \in FaultKinds : Statement(s, f) \/ RolledBack(s, f)
                            \/ Lose(s) \/ Disconnect(s) \/ Connect(s)

NothingHalf == \A k \in Keys : committed[k] # Half
\* between operations no transaction is open: nothing is left to be committed by later work, and every operation sees the latest contents
NothingLeft == \A s \in Sessions : run[s].op = "" => ~tx[s].open
\* what others see after an operation is what the trail says
Exact == report # <<>> => LET x == report[1] c == IF conn[x.s] = "up" \/ x.fired # <<>> THEN x.trail ELSE <<x.trail[1]>> IN
           /\ committed = T!Left(c, x.fired)
           /\ (x.out = "ok" <=> (x.fired = <<>> /\ x.op # "bad" /\ conn[x.s] = "up"))
           /\ (x.fired # <<>> => conn[x.s] = T!Connection("up", x.fired))
Opened == open = {s \in Sessions : conn[s] = "up"}
\* whatever was left, repeating the operation leads to where it would have led (an export that got through unnoticed cannot be repeated)
Repeatable == AllIdle => \A op \in Operations \ {"export"} : LET t == Trail(committed, op) IN
  \A k \in 0..T!Final(t).records + 8 : T!Final(Trail(T!SeenAt(t, k), op)) = T!Final(t)
\* nothing visible ever gets lost
Grows == [][\A k \in Keys : committed'[k] >= committed[k]]_vars
View0 == <<committed, tx, conn, run, Len(history), faults, report, open>>

\* shapes of histories for the real code
Places == {"first", "read", "write", "commit", "rollback"}
Actions == {<<"op", op, "", "">> : op \in Operations}
           \cup {<<"op", op, f, p>> : op \in Operations \ {"newest"}, f \in {"error", "deadlock", "drop", "ack"}, p \in Places \ {"rollback"}}
           \cup {<<"op", op, f, "rollback">> : op \in Operations \ {"newest"}, f \in {"error", "deadlock"}}
           \cup {<<"lose">>, <<"connect">>, <<"refused">>, <<"other", "export">>, <<"other", "recalculate">>, <<"other", "detect">>}
           \cup {<<"disconnect", f>> : f \in {"", "close"}}
           \cup {<<"with", b, f>> : b \in {"", "raise", "fail"}, f \in {"", "close"}}
GenNext == /\ Len(history) < Depth /\ UNCHANGED <<committed, tx, conn, run, faults, report, open>>
           /\ \E a \in Actions : history' = Append(history, a)
           /\ (Out /\ Len(history') = Depth) => PrintT("BEHAVIOUR " \o ToJson(history'))
=============================================================================
