----------------------------- MODULE Decluster -----------------------------
(* Window declustering.  An event is [mag, t, x]; W(h) is the window of h:    *)
(* [sp, aft, fore], all integers in the units of positions and times.         *)
EXTENDS Common
CONSTANT WholeTurn                             \* circumference in units of positions
(* visiting order: larger magnitude first, then earlier time, then row order  *)
Before(ev, i, j) == \/ ev[i].mag > ev[j].mag
                    \/ ev[i].mag = ev[j].mag /\ (ev[i].t < ev[j].t \/ (ev[i].t = ev[j].t /\ i < j))
LineDist(a, b) == LET d == Abs(a - b) % WholeTurn IN Min2(d, WholeTurn - d)
(* e lies in the window of h (boundaries included)                            *)
Inside(ev, win, D, h, e) ==
  /\ ev[e].t - ev[h].t <= win[h].aft
  /\ ev[h].t - ev[e].t <= win[h].fore
  /\ D[h][e] <= win[h].sp
(* The heads are the unique set such that an event is a head iff no head      *)
(* before it has it in its window.                                            *)
RECURSIVE HeadsFrom(_, _, _, _, _)
HeadsFrom(ev, win, D, order, heads) ==
  IF order = <<>> THEN heads
  ELSE LET e == order[1] IN
       HeadsFrom(ev, win, D, Tail(order), IF \E h \in heads : Inside(ev, win, D, h, e) THEN heads ELSE heads \cup {e})
Order(ev) == SortSeq([i \in 1..Len(ev) |-> i], LAMBDA a, b : Before(ev, a, b))
Heads(ev, win, D) == HeadsFrom(ev, win, D, Order(ev), {})
LineMatrix(ev) == [i \in 1..Len(ev) |-> [j \in 1..Len(ev) |-> LineDist(ev[i].x, ev[j].x)]]
(* foreshock window: the proportion num/den of the aftershock window          *)
Portion(aft, num, den) == (aft \div den) * num + ((aft % den) * num) \div den

(* ---- published window sizes; m in hundredths, sizes in logarithms * 10^6 -- *)
Near(x, y, tol) == Abs(x - y) <= tol
WindowOk(cls, m, s) ==
  CASE cls = "GardnerKnopoffWindow" ->
         /\ Near(s.lgsp, 1238 * m + 983000, 3)
         /\ Near(s.lgt, IF m >= 650 THEN 320 * m + 2738900 ELSE 5409 * m - 547000, 3)
    [] cls = "GruenthalWindow" ->
         /\ Near(s.sqsp, 37000 + 10200 * m, 60)
         /\ IF m >= 650 THEN Near(s.lgt, 2800000 + 240 * m, 3) ELSE Near(s.sqt, 620000 + 173200 * m, 200)
    [] cls = "UhrhammerWindow" ->
         /\ Near(s.lnsp, 8040 * m - 1024000, 6)
         /\ Near(s.lnt, 12350 * m - 2870000, 6)
=============================================================================
