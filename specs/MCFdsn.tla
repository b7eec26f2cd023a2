------------------------------- MODULE MCFdsn -------------------------------
(* The batched download as a machine: doubling probes, bisection, pages; any  *)
(* request may fail.                                                          *)
EXTENDS Fdsn
CONSTANTS MaxN, MaxB
VARIABLES n, bs, phase, chunk, low, high, last, page, out, probes, pages
vars == <<n, bs, phase, chunk, low, high, last, page, out, probes, pages>>
Init == /\ n \in 0..MaxN /\ bs \in 1..MaxB /\ phase = "double" /\ chunk = 1 /\ low = 0 /\ high = 0 /\ last = 0
        /\ page = 0 /\ out = <<>> /\ probes = 0 /\ pages = <<>>
Exists(offset) == Len(Page(n, 1, offset)) > 0
Double == /\ phase = "double" /\ probes' = probes + 1
          /\ IF Exists(chunk * bs + 1) THEN chunk' = 2 * chunk /\ UNCHANGED <<phase, low, high>>
             ELSE phase' = "bisect" /\ low' = chunk \div 2 /\ high' = chunk /\ UNCHANGED chunk
          /\ UNCHANGED <<n, bs, last, page, out, pages>>
Bisect == /\ phase = "bisect" /\ low <= high
          /\ LET mid == (low + high) \div 2 IN
             IF Exists(mid * bs + 1) THEN last' = mid /\ low' = mid + 1 /\ UNCHANGED high
             ELSE high' = mid - 1 /\ UNCHANGED <<low, last>>
          /\ probes' = probes + 1 /\ UNCHANGED <<n, bs, phase, chunk, page, out, pages>>
Start == /\ phase = "bisect" /\ low > high /\ phase' = "fetch" /\ UNCHANGED <<n, bs, chunk, low, high, last, page, out, probes, pages>>
Fetch == /\ phase = "fetch" /\ page <= last
         /\ out' = out \o Page(n, bs, page * bs + 1) /\ pages' = Append(pages, page * bs + 1) /\ page' = page + 1
         /\ UNCHANGED <<n, bs, phase, chunk, low, high, last, probes>>
Finish == /\ phase = "fetch" /\ page > last /\ phase' = "done" /\ UNCHANGED <<n, bs, chunk, low, high, last, page, out, probes, pages>>
Fail == /\ phase \in {"double", "bisect", "fetch"} /\ phase' = "failed" /\ out' = <<>>
        /\ UNCHANGED <<n, bs, chunk, low, high, last, page, probes, pages>>
Next == Double \/ Bisect \/ Start \/ Fetch \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Double \/ Bisect \/ Start \/ Fetch \/ Finish)
Complete == phase = "done" => out = Everything(n)
NoPartial == phase = "failed" => out = <<>>
FewProbes == probes <= ProbeBound(n, bs)
NoEmptyPage == \A i \in 1..Len(pages) : Page(n, bs, pages[i]) # <<>> \/ n = 0
Disjoint == \A i, j \in 1..Len(pages) : i < j => pages[i] + bs <= pages[j]
Ends == <>(phase \in {"done", "failed"})
Emit == phase = "done" => Case([n |-> n, bs |-> bs, reqs |-> probes + Len(pages)])
=============================================================================
