----------------------------- MODULE MCConvert ------------------------------
(* A catalogue going to and fro, with faulty conversions.  The observer's     *)
(* rules are those of the trace specification.                                *)
EXTENDS OpenQuake
CONSTANTS Faults, MaxSteps, Master
VARIABLES fault, form, cur, bad, hist
vars == <<fault, form, cur, bad, hist>>
(* times, magnitudes (0: NaN), identifiers (empty: absent)                    *)
Old == DayNo(1200, 3, 1)
Cats == [A |-> [t |-> << <<0, 59, 999999>>, <<-1, 50000, 1>> >>, m |-> <<3, 1>>, id |-> <<>>],
         B |-> [t |-> << <<Old, 3661, 500000>>, <<18262, 7, 0>> >>, m |-> <<2, 0>>, id |-> <<8, 9>>],
         C |-> [t |-> << <<DayNo(199, 11, 11), 1, 0>> >>, m |-> <<1>>, id |-> <<>>],
         E |-> [t |-> <<>>, m |-> <<>>, id |-> <<>>]]
Init == fault \in Faults /\ form = "none" /\ cur = Cats.E /\ bad = FALSE /\ hist = <<>>
Log(s) == hist' = Append(hist, s) /\ UNCHANGED fault
Start(k) == cur' = Cats[k] /\ form' = "cat" /\ UNCHANGED bad /\ Log("start" \o k)
Wrong(f) ==
  CASE fault = "month and day swapped" /\ f[3] <= 12 -> <<f[1], f[3], f[2], f[4], f[5], f[6]>>
    [] fault = "fraction dropped" -> [f EXCEPT ![6] = 1000000 * (f[6] \div 1000000)]
    [] fault = "fraction rounded" -> [f EXCEPT ![6] = 1000 * (f[6] \div 1000)]
    [] fault = "hour of twelve" -> [f EXCEPT ![4] = f[4] % 12]
    [] OTHER -> f
To == /\ form = "cat" /\ Len(cur.t) > 0
      /\ LET exp == [i \in 1..Len(cur.t) |-> Fields(cur.t[i])]
             got == [i \in 1..Len(cur.t) |-> Wrong(exp[i])]
             ids == CASE cur.id # <<>> -> (IF fault = "identifiers replaced" THEN [i \in 1..Len(cur.id) |-> 100 + i] ELSE cur.id)
                      [] fault = "identifiers repeated" -> [i \in 1..Len(cur.t) |-> 50]
                      [] fault = "no identifiers" -> <<>>
                      [] OTHER -> [i \in 1..Len(cur.t) |-> 50 + i]
         IN /\ bad' = (bad \/ got # exp \/ Len(ids) # Len(cur.t) \/ ~Distinct(ids) \/ (cur.id # <<>> /\ ids # cur.id))
            /\ cur' = [cur EXCEPT !.id = ids]
      /\ form' = "oq" /\ Log("to")
WrongTime(t) ==
  LET f == Fields(t) IN
  CASE fault = "early fractions dropped" /\ f[1] < 1678 -> <<t[1], t[2], 0>>
    [] fault = "three digit years" /\ f[1] < 1000 -> <<DayNo(10 * f[1] + f[2] \div 10, 1, f[3]), t[2], t[3]>>
    [] fault = "before 1970" /\ t[1] < 0 -> <<t[1] + 1, t[2], t[3]>>
    [] OTHER -> t
From == /\ form = "oq" /\ Len(cur.t) > 0
        /\ LET keep == IF fault = "rows without magnitude dropped" THEN Positions(cur.m, LAMBDA i : cur.m[i] # 0) ELSE [i \in 1..Len(cur.m) |-> i]
               ord == IF fault = "sorted by time" /\ Len(cur.t) = 2 /\ cur.t[2][1] < cur.t[1][1] THEN <<2, 1>> ELSE keep
               got == [i \in 1..Len(ord) |-> WrongTime(cur.t[ord[i]])]
               gm == [i \in 1..Len(ord) |-> cur.m[ord[i]]]
           IN bad' = (bad \/ got # cur.t \/ gm # cur.m)
        /\ form' = "cat" /\ UNCHANGED cur /\ Log("from")
Empty == /\ form = "cat" /\ Len(cur.t) = 0
         /\ bad' = (bad \/ fault = "empty fails") /\ UNCHANGED <<cur, form>> /\ Log("to")
Act(s) == CASE s = "startA" -> Start("A") [] s = "startB" -> Start("B") [] s = "startC" -> Start("C") [] s = "startE" -> Start("E")
            [] s = "to" -> To \/ Empty [] s = "from" -> From
Steps == {"startA", "startB", "startC", "startE", "to", "from"}
OnMaster == hist = SubSeq(Master, 1, Len(hist))
Next == \/ Len(hist) < MaxSteps /\ (~bad \/ OnMaster) /\ \E s \in Steps : Act(s)
        \/ Len(hist) >= MaxSteps /\ OnMaster /\ Len(hist) < Len(Master) /\ \E s \in Steps : s = Master[Len(hist) + 1] /\ Act(s)
Spec == Init /\ [][Next]_vars
NoFalseAlarm == fault = "none" => ~bad
MasterShowsAll == (hist = Master /\ fault # "none") => bad
Emit == (bad \/ hist = Master) => Case([f |-> fault, h |-> hist])
=============================================================================
