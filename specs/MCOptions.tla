----------------------------- MODULE MCOptions ------------------------------
(* The options table, its users, and faulty implementations of both.  A      *)
(* history sets the option, tries an unknown one, reads it, and calls         *)
(* functions of two modules in a situation to warn of.  The observer's rules  *)
(* are those of the trace specification.                                      *)
EXTENDS Options
CONSTANTS Faults, MaxSteps, Master
VARIABLES fault, opt, seen, other, extra, want, bad, hist, memo
vars == <<fault, opt, seen, other, extra, want, bad, hist, memo>>
Init == /\ fault \in Faults /\ opt = TRUE /\ seen = "none" /\ other = TRUE /\ extra = FALSE
        /\ want = TRUE /\ bad = FALSE /\ hist = <<>> /\ memo = {}
Log(s) == hist' = Append(hist, s)
Set(v) == /\ opt' = (IF fault = "sticky" /\ ~opt THEN FALSE ELSE v)
          /\ other' = (IF fault = "two tables" THEN other ELSE opt') /\ want' = v
          /\ Log(IF v THEN "on" ELSE "off") /\ UNCHANGED <<fault, seen, extra, bad, memo>>
BadSet == /\ Log("bad")
          /\ bad' = (bad \/ fault = "unchecked")
          /\ opt' = (IF fault = "reset on error" THEN TRUE ELSE opt) /\ other' = (IF fault = "two tables" THEN other ELSE opt')
          /\ UNCHANGED <<fault, seen, extra, want, memo>>
Get == Log("get") /\ bad' = (bad \/ opt # want) /\ UNCHANGED <<fault, opt, seen, other, extra, want, memo>>
(* a call in module k: what it reads, whether it warns, what it returns       *)
Reads(k) == CASE fault = "captured" -> (IF seen = "none" THEN opt ELSE seen = "on")
              [] fault = "two tables" /\ k = 2 -> other
              [] OTHER -> opt
Call(k) == LET r == Reads(k)
               warns == CASE fault = "always" -> TRUE [] fault = "never" -> FALSE [] fault = "once" -> r /\ ~extra [] OTHER -> r
               result == IF fault = "dependent" /\ k = 1 THEN <<k, r>> ELSE <<k>>
           IN /\ bad' = (bad \/ warns # want \/ \E m \in memo : m[1] = k /\ m[2] # result)
              /\ memo' = memo \cup {<<k, result>>}
              /\ seen' = (IF seen = "none" THEN (IF opt THEN "on" ELSE "off") ELSE seen)
              /\ extra' = (extra \/ r)
              /\ opt' = (IF fault = "not restored" THEN FALSE ELSE opt) /\ other' = (IF fault = "not restored" THEN FALSE ELSE other)
              /\ Log(IF k = 1 THEN "callA" ELSE "callB") /\ UNCHANGED <<fault, want>>
Act(s) == CASE s = "on" -> Set(TRUE) [] s = "off" -> Set(FALSE) [] s = "bad" -> BadSet [] s = "get" -> Get [] s = "callA" -> Call(1) [] s = "callB" -> Call(2)
Steps == {"on", "off", "bad", "get", "callA", "callB"}
OnMaster == hist = SubSeq(Master, 1, Len(hist))
Next == \/ Len(hist) < MaxSteps /\ (~bad \/ OnMaster) /\ \E s \in Steps : Act(s)
        \/ Len(hist) >= MaxSteps /\ OnMaster /\ Len(hist) < Len(Master) /\ \E s \in Steps : s = Master[Len(hist) + 1] /\ Act(s)
Spec == Init /\ [][Next]_vars
NoFalseAlarm == fault = "none" => ~bad
LastSetWins == fault = "none" => opt = want
MasterShowsAll == (hist = Master /\ fault # "none") => bad
Emit == (bad \/ hist = Master) => Case([f |-> fault, h |-> hist])
=============================================================================
