----------------------------- MODULE MCColumns ------------------------------
(* Two tables that lose and regain columns, two methods, p needing {a} and q  *)
(* needing {a, b}, and faulty ways to check what is needed.  The observer's   *)
(* rules are those of the trace specification.                                *)
EXTENDS Common
CONSTANTS Faults, MaxSteps, Master
VARIABLES fault, cols, need, okd, no, first, old, bad, hist
vars == <<fault, cols, need, okd, no, first, old, bad, hist>>
Objs == {1, 2}
Ops == {"p", "q"}
Truly == [o \in Ops |-> IF o = "p" THEN {"a"} ELSE {"a", "b"}]
Init == /\ fault \in Faults /\ cols = [o \in Objs |-> {"a", "b"}] /\ need = Truly /\ okd = {} /\ no = {}
        /\ first = 0 /\ old = [o \in Objs |-> <<>>] /\ bad = FALSE /\ hist = <<>>
Log(s) == hist' = Append(hist, s)
Drop(o, c) == /\ c \in cols[o] /\ cols' = [cols EXCEPT ![o] = @ \ {c}]
              /\ Log(<<"drop", o, c>>) /\ UNCHANGED <<fault, need, okd, no, first, old, bad>>
Add(o, c) == /\ c \notin cols[o] /\ cols' = [cols EXCEPT ![o] = @ \cup {c}]
             /\ Log(<<"add", o, c>>) /\ UNCHANGED <<fault, need, okd, no, first, old, bad>>
(* the columns the method looks at, and what it concludes from them           *)
Looks(o) == CASE fault = "other table" /\ first # 0 -> cols[first]
              [] fault = "stale" /\ old[o] # <<>> -> old[o][1]
              [] OTHER -> cols[o]
Required(m) == IF fault = "shared" /\ okd # {} THEN UNION {need[x] : x \in okd \cup {m}} ELSE need[m]
Refuses(o, m) == LET l == Looks(o)  r == Required(m) IN
  CASE fault = "any" -> r \cap l = {}
    [] fault = "first only" -> "a" \notin l
    [] fault = "accepted once" -> m \notin okd /\ ~(r \subseteq l)
    [] fault = "refused once" -> m \in no \/ ~(r \subseteq l)
    [] fault = "nothing else" -> r # l /\ ~(m = "p" /\ l = {"a", "b"})
    [] fault = "never" -> FALSE
    [] OTHER -> ~(r \subseteq l)
Call(o, m) ==
  LET refuse == Refuses(o, m)
      lacks == Truly[m] \ cols[o]
      names == CASE fault = "names all" -> Truly[m] [] fault = "names one" -> (IF lacks = {} THEN {} ELSE {CHOOSE c \in lacks : TRUE}) [] OTHER -> Required(m) \ Looks(o)
      changed == fault = "acts first" /\ refuse
      wrongKind == fault = "wrong error" /\ refuse
  IN /\ bad' = (bad \/ refuse # (lacks # {}) \/ (refuse /\ names # lacks) \/ changed \/ wrongKind)
     /\ need' = (IF fault = "shrinks" /\ refuse THEN [need EXCEPT ![m] = @ \cap cols[o]] ELSE need)
     /\ okd' = (IF refuse THEN okd ELSE okd \cup {m}) /\ no' = (IF refuse THEN no \cup {m} ELSE no)
     /\ first' = (IF first = 0 THEN o ELSE first)
     /\ old' = (IF old[o] = <<>> THEN [old EXCEPT ![o] = <<cols[o]>>] ELSE old)
     /\ Log(<<"call", o, m>>) /\ UNCHANGED <<fault, cols>>
Act(s) == CASE s[1] = "drop" -> Drop(s[2], s[3]) [] s[1] = "add" -> Add(s[2], s[3]) [] s[1] = "call" -> Call(s[2], s[3])
Steps == {<<"drop", o, c>> : o \in Objs, c \in {"a", "b"}} \cup {<<"add", o, c>> : o \in Objs, c \in {"a", "b", "x"}} \cup {<<"call", o, m>> : o \in Objs, m \in Ops}
OnMaster == hist = SubSeq(Master, 1, Len(hist))
Next == \/ Len(hist) < MaxSteps /\ (~bad \/ OnMaster) /\ \E s \in Steps : Act(s)
        \/ Len(hist) >= MaxSteps /\ OnMaster /\ Len(hist) < Len(Master) /\ Act(Master[Len(hist) + 1])
Spec == Init /\ [][Next]_vars
NoFalseAlarm == fault = "none" => ~bad
MasterShowsAll == (hist = Master /\ fault # "none") => bad
Emit == (bad \/ hist = Master) => Case([f |-> fault, h |-> hist])
=============================================================================
