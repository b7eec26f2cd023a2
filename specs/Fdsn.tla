-------------------------------- MODULE Fdsn --------------------------------
(* Downloading events from a paged server: the server holds events 1..n in    *)
(* its order; a request for (limit, offset) is answered with the events       *)
(* offset .. offset+limit-1 that exist, "no data" if there are none, or fails.*)
EXTENDS Common
Page(n, limit, offset) == [i \in 1..Max2(0, Min2(limit, n - offset + 1)) |-> offset + i - 1]
Everything(n) == [i \in 1..n |-> i]
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)          \* ceiling
PageCount(n, bs) == Max2(1, (n + bs - 1) \div bs)
ProbeBound(n, bs) == 2 * Log2(PageCount(n, bs)) + 4

(* request parameters of a call: arguments are <<name, value>> pairs          *)
Renamed == ("start_time" :> "starttime") @@ ("end_time" :> "endtime") @@ ("min_latitude" :> "minlatitude")
  @@ ("max_latitude" :> "maxlatitude") @@ ("min_longitude" :> "minlongitude") @@ ("max_longitude" :> "maxlongitude")
  @@ ("max_magnitude" :> "maxmagnitude") @@ ("include_all_magnitudes" :> "includeallmagnitudes")
  @@ ("event_type" :> "eventtype")
(* delta: bin width in hundredths, -1 when None was passed                    *)
Params(args, delta) ==
  {LET a == args[i] IN
     IF a[1] = "min_magnitude" THEN <<"minmagnitude", IF delta < 0 THEN a[2] ELSE a[2] - delta \div 2>>
     ELSE IF a[1] \in DOMAIN Renamed THEN <<Renamed[a[1]], a[2]>>
     ELSE a : i \in 1..Len(args)}
=============================================================================
