------------------------------ MODULE MCPurity ------------------------------
(* Implementations on cells of memory.  An object is a pair of cells (data,   *)
(* attribute mc); a call of A makes a result, a call of B uses its argument   *)
(* in one of the documented ways.  A faulty implementation shares, caches,    *)
(* remembers or scribbles.  The observer sees contents only and judges with   *)
(* the frame and consistency rules of Purity; explored are all histories.     *)
(* Emitted are the histories on which some fault is first seen: these drive   *)
(* the real code.                                                             *)
EXTENDS Purity
CONSTANTS Faults, MaxSteps, BKinds, V, Master
VARIABLES fault, bkind, cell, objs, cache, buf, count, bad, hist, memo, lastR
vars == <<fault, bkind, cell, objs, cache, buf, count, bad, hist, memo, lastR>>
Content(c, o, O) == <<c[O[o][1]], c[O[o][2]], 0, 0, 0, 0>>
Heap(c, O) == [o \in 1..Len(O) |-> Content(c, o, O)]
Init == /\ fault \in Faults /\ bkind \in BKinds
        /\ cell = <<1, 0, 2, 0>> /\ objs = <<<<1, 2>>, <<3, 4>>>>     \* two objects of the caller
        /\ cache = <<>> /\ buf = <<>> /\ count = 0 /\ bad = FALSE /\ hist = <<>> /\ memo = {} /\ lastR = 0
FA(x, n) == (x + 2 + n) % V
New(c, v) == Append(Append(c, v), 0)
NewObj(c) == <<Len(c) + 1, Len(c) + 2>>
Judge(c2, O2, kind, args, op, res) ==
  LET h == Heap(cell, objs)  h2 == Heap(c2, O2)  key == Key(op, kind, h, args) IN
  /\ bad' = (bad \/ Spilled(h, h2, kind, args) # {} \/ ~Consistent(memo, key, res))
  /\ memo' = memo \cup {<<key, res>>}
(* what A does to its argument x before (faulty) and what it returns          *)
AonCells(x) ==
  LET d == objs[x][1]  at == objs[x][2]
      n == IF fault = "global" THEN count ELSE 0
  IN CASE fault = "mutate" -> [cell EXCEPT ![d] = (@ + 1) % V]
       [] fault = "normalise" -> [cell EXCEPT ![d] = @ - (@ % 2)]
       [] fault = "attribute" -> [cell EXCEPT ![at] = 1]
       [] OTHER -> cell
CallA(x, label) ==
  LET c1 == AonCells(x)
      d == objs[x][1]
      n == IF fault = "global" THEN count ELSE 0
      v == FA(cell[d], n)
      hit == {i \in 1..Len(cache) : cache[i][1] = (IF fault = "stale" THEN x ELSE cell[d])}
      Take(c, o) == /\ cell' = c /\ objs' = Append(objs, o)
                    /\ Judge(c, Append(objs, o), "pure", <<x>>, "A", c[o[1]])
  IN /\ lastR' = Len(objs) + 1 /\ hist' = Append(hist, label)
     /\ CASE fault = "alias" -> Take(New(c1, v), <<d, Len(c1) + 2>>) /\ UNCHANGED <<cache, buf>>
          [] fault = "buffer" /\ buf # <<>> -> Take([c1 EXCEPT ![buf[1]] = v], buf) /\ UNCHANGED <<cache, buf>>
          [] fault = "buffer" /\ buf = <<>> -> Take(New(c1, v), NewObj(c1)) /\ buf' = NewObj(c1) /\ UNCHANGED cache
          [] fault = "cache" /\ hit # {} -> Take(c1, cache[Min(hit)][2]) /\ UNCHANGED <<cache, buf>>
          [] fault = "stale" /\ hit # {} -> Take(New(c1, cache[Min(hit)][2]), NewObj(c1)) /\ UNCHANGED <<cache, buf>>
          [] OTHER -> Take(New(c1, v), NewObj(c1)) /\ UNCHANGED buf
                      /\ cache' = (IF fault = "cache" THEN Append(cache, <<cell[d], NewObj(c1)>>)
                                   ELSE IF fault = "stale" THEN Append(cache, <<x, v>>) ELSE cache)
A == CallA(1, "A") /\ UNCHANGED <<fault, bkind, count>>
A2 == CallA(2, "A2") /\ UNCHANGED <<fault, bkind, count>>
(* B on the caller's object 1, documented use; faulty: it reaches into what   *)
(* an earlier call of A returned or was given                                 *)
B == LET d == objs[1][1]  at == objs[1][2]
         c1 == CASE bkind = "pure" -> cell [] bkind = "storemc" -> [cell EXCEPT ![at] = 3] [] bkind = "inplace" -> [cell EXCEPT ![d] = (@ + 1) % V]
         c2 == IF fault = "reach" /\ lastR # 0 THEN [c1 EXCEPT ![objs[lastR][1]] = (@ + 1) % V] ELSE c1
     IN /\ cell' = c2 /\ count' = (count + 1) % 2 /\ hist' = Append(hist, "B")
        /\ Judge(c2, objs, bkind, <<1>>, "B", IF bkind = "storemc" THEN 3 ELSE c1[d]) /\ UNCHANGED <<fault, bkind, objs, cache, buf, lastR>>
(* the caller writes into a result, or into an argument                       *)
Poke(o, label) == LET c2 == [cell EXCEPT ![objs[o][1]] = (@ + 1) % V] IN
  /\ cell' = c2 /\ hist' = Append(hist, label)
  /\ bad' = (bad \/ SpilledByPoke(Heap(cell, objs), Heap(c2, objs), o) # {})
  /\ UNCHANGED <<fault, bkind, objs, cache, buf, count, memo, lastR>>
PokeR == lastR # 0 /\ Poke(lastR, "pokeR")
PokeX == Poke(1, "pokeX")
(* the caller makes an equal object of his own and calls A on that            *)
Copy == /\ Len(objs) < 12
        /\ LET c == [i \in 1..(Len(cell) + 2) |-> IF i <= Len(cell) THEN cell[i] ELSE cell[objs[1][i - Len(cell)]]]
               O == Append(objs, NewObj(cell))
               x == Len(O)
               n == IF fault = "global" THEN count ELSE 0
               c1 == IF fault = "mutate" THEN [c EXCEPT ![O[x][1]] = (@ + 1) % V] ELSE IF fault = "normalise" THEN [c EXCEPT ![O[x][1]] = @ - (@ % 2)] ELSE IF fault = "attribute" THEN [c EXCEPT ![O[x][2]] = 1] ELSE c
               v == FA(c[O[x][1]], n)
               key == Key("A", "pure", Heap(c, O), <<x>>)
               c2 == New(c1, IF fault = "alias" THEN c[O[x][1]] ELSE v)
           IN /\ cell' = c2 /\ objs' = Append(O, NewObj(c1)) /\ lastR' = Len(O) + 1 /\ hist' = Append(hist, "copyA")
              /\ bad' = (bad \/ Spilled(Heap(c, O), Heap(c2, O), "pure", <<x>>) # {} \/ (fault \notin {"alias", "buffer"} /\ ~Consistent(memo, key, v)))
              /\ memo' = memo \cup {<<key, c2[Len(c2) - 1]>>}
        /\ UNCHANGED <<fault, bkind, cache, buf, count>>
Go == Len(hist) < MaxSteps /\ (~bad \/ \E k \in 1..Len(Master) : SubSeq(Master, 1, k) = hist)
Step(a) == Len(hist) < Len(Master) /\ Master[Len(hist) + 1] = a
OnMaster == hist = SubSeq(Master, 1, Len(hist))
Next == \/ Go /\ (A \/ A2 \/ B \/ PokeR \/ PokeX \/ Copy)
        \/ OnMaster /\ Len(hist) >= MaxSteps /\ ((Step("A") /\ A) \/ (Step("A2") /\ A2) \/ (Step("B") /\ B) \/ (Step("pokeR") /\ PokeR) \/ (Step("pokeX") /\ PokeX) \/ (Step("copyA") /\ Copy))
Spec == Init /\ [][Next]_vars
(* the rules accept every history of an implementation that owns its data     *)
NoFalseAlarm == fault = "none" => ~bad
Separate == fault = "none" => \A i, j \in 1..Len(objs) : i # j => objs[i][1] # objs[j][1] /\ objs[i][2] # objs[j][2]
(* and one history shows every one of the faults                              *)
MasterShowsAll == (hist = Master /\ fault # "none") => bad
Emit == (bad \/ hist = Master) => Case([f |-> fault, h |-> hist])
=============================================================================
