------------------------------- MODULE MCQml --------------------------------
(* Stepwise reader of a QuakeML token stream (start tags, pieces of text, end *)
(* tags, end of input) against the declarative records of QuakeML.tla: every  *)
(* document of the bounded domain, every split of every text into pieces and  *)
(* every point where the input may be cut off.                                *)
EXTENDS QuakeML
CONSTANTS Types, Vers, MaxItems, Splits
VARIABLES doc, pos, off, path, buf, cur, items, out, status
vars == <<doc, pos, off, path, buf, cur, items, out, status>>

Origin(i) == [k |-> "o", id |-> i, type |-> 0, f |-> << <<"time/value", 20 + i>>, <<"creationInfo/version", 30 + i>> >>,
              ver |-> -1, ct |-> -1]
Magn(i, t, v) == [k |-> "m", id |-> i, type |-> t, f |-> << <<"mag/value", 40 + i>>, <<"comment/type", 41>> >>, ver |-> v, ct |-> -1]
ItemSet == {Origin(i) : i \in {1, 2}} \cup {Magn(i, t, v) : i \in {0, 1, 2}, t \in Types, v \in Vers}
UniqueIds(s) == \A i, j \in 1..Len(s) : i < j => (s[i].k # s[j].k \/ s[i].id # s[j].id \/ s[i].id = 0)
Docs == {d \in [first : BOOLEAN, ws : BOOLEAN, po : {0, 1}, pm : {0, 1}, items : SeqsBetween(ItemSet, 0, MaxItems)] : UniqueIds(d.items)}

(* tokens: <<"S", tag, id>>, <<"T", chars>>, <<"E", tag>>                     *)
Sp == -1                              \* white space
TextOf(t) == <<t, Sp, t>>
Pad(d, s) == IF d.ws THEN <<Sp>> \o s \o <<Sp>> ELSE s
Leaf(d, path1, t) ==
  << <<"S", path1, 0>>, <<"T", Pad(d, TextOf(t))>>, <<"E", path1>> >>
Gap(d) == IF d.ws THEN << <<"T", <<Sp>> >> >> ELSE <<>>
FlattenSeqs(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
(* an inner path "a/b" is written as two nested elements in the driver; here  *)
(* the reader sees the joined path, the nesting being immaterial to the text. *)
ItemToks(d, it) ==
  LET tag == IF it.k = "o" THEN "origin" ELSE "magnitude" IN
  << <<"S", tag, it.id>> >>
  \o FlattenSeqs([i \in 1..Len(it.f) |-> Gap(d) \o Leaf(d, it.f[i][1], it.f[i][2])])
  \o (IF it.type # 0 THEN Leaf(d, "type", it.type) ELSE <<>>)
  \o (IF it.ver >= 0 THEN Leaf(d, "creationInfo/version", 100 + it.ver) ELSE <<>>)
  \o << <<"E", tag>> >>
Prefs(d) == (IF d.po # 0 THEN Leaf(d, "preferredOriginID", d.po) ELSE <<>>)
            \o (IF d.pm # 0 THEN Leaf(d, "preferredMagnitudeID", d.pm) ELSE <<>>)
            \o Leaf(d, "type", 9)
Body(d) == FlattenSeqs([i \in 1..Len(d.items) |-> Gap(d) \o ItemToks(d, d.items[i])])
Toks(d) == << <<"S", "event", 7>> >> \o (IF d.first THEN Prefs(d) \o Body(d) ELSE Body(d) \o Prefs(d)) \o Gap(d)
           \o << <<"E", "event">> >>

Strip(s) == LET P == {i \in 1..Len(s) : s[i] # Sp} IN
            IF P = {} THEN <<>> ELSE SubSeq(s, Min(P), Max(P))
Untext(s) == IF Len(s) = 3 /\ s[1] = s[3] /\ s[2] = Sp THEN s[1] ELSE -9

Init == /\ doc \in Docs
        /\ pos = 1 /\ off = 0 /\ path = "" /\ buf = <<>>
        /\ cur = [k |-> "none", id |-> 0, f |-> <<>>]
        /\ items = [ev |-> <<>>, list |-> <<>>] /\ out = <<>> /\ status = "reading"
T == Toks(doc)
Tok == T[pos]
StartTag == /\ Tok[1] = "S" /\ buf' = <<>> /\ pos' = pos + 1 /\ off' = 0
            /\ IF Tok[2] \in {"event", "origin", "magnitude"}
               THEN /\ cur' = [k |-> Tok[2], id |-> Tok[3], f |-> <<>>]
                    /\ path' = ""
                    /\ items' = IF Tok[2] = "event" THEN [ev |-> <<>>, list |-> <<>>] ELSE items
               ELSE path' = Tok[2] /\ UNCHANGED <<cur, items>>
            /\ UNCHANGED <<out, status>>
(* the parser delivers any prefix of the remaining text of this token         *)
TextPiece == /\ Tok[1] = "T"
             /\ \E n \in 1..(Len(Tok[2]) - off) :
                  /\ (~Splits => n = Len(Tok[2]) - off)
                  /\ buf' = buf \o SubSeq(Tok[2], off + 1, off + n)
                  /\ IF off + n = Len(Tok[2]) THEN pos' = pos + 1 /\ off' = 0 ELSE pos' = pos /\ off' = off + n
             /\ UNCHANGED <<path, cur, items, out, status>>
Field(f, p) == LET I == {i \in 1..Len(f) : f[i][1] = p} IN IF I = {} THEN 0 ELSE f[Min(I)][2]
EvOf(id, f, list) ==
  [id |-> id, type |-> Field(f, "type"), po |-> Field(f, "preferredOriginID"), pm |-> Field(f, "preferredMagnitudeID"),
   items |-> [i \in 1..Len(list) |->
     [k |-> IF list[i].k = "origin" THEN "o" ELSE "m", id |-> list[i].id,
      type |-> IF list[i].k = "origin" THEN 0 ELSE Field(list[i].f, "type"), f |-> list[i].f,
      ver |-> LET v == Field(list[i].f, "creationInfo/version") IN IF list[i].k = "origin" \/ v = 0 THEN -1 ELSE v - 100,
      ct |-> -1]]]
EndTag == /\ Tok[1] = "E" /\ buf' = <<>> /\ pos' = pos + 1 /\ off' = 0
          /\ CASE Tok[2] = "event" -> /\ out' = Append(out, EvOf(7, items.ev, items.list))
                                      /\ cur' = [k |-> "none", id |-> 0, f |-> <<>>] /\ UNCHANGED <<items, path>>
               [] Tok[2] \in {"origin", "magnitude"} ->
                    /\ items' = [items EXCEPT !.list = Append(@, cur)]
                    /\ cur' = [k |-> "event", id |-> 7, f |-> <<>>] /\ UNCHANGED <<out, path>>
               [] OTHER -> LET t == Strip(buf) x == <<path, Untext(t)>> IN
                    /\ IF t = <<>> THEN UNCHANGED <<cur, items>>
                       ELSE IF cur.k = "event" THEN items' = [items EXCEPT !.ev = Append(@, x)] /\ UNCHANGED cur
                       ELSE cur' = [cur EXCEPT !.f = Append(@, x)] /\ UNCHANGED items
                    /\ path' = "" /\ UNCHANGED out
          /\ UNCHANGED status
EndOfInput == /\ pos > Len(T) /\ status' = "ok" /\ UNCHANGED <<doc, pos, off, path, buf, cur, items, out>>
Cut == /\ pos > 1 /\ pos <= Len(T) /\ status' = "error" /\ out' = <<>>
       /\ UNCHANGED <<doc, pos, off, path, buf, cur, items>>
Next == /\ status = "reading"
        /\ IF pos > Len(T) THEN EndOfInput
           ELSE \/ (StartTag \/ TextPiece \/ EndTag) /\ UNCHANGED doc
                \/ Cut
Spec == Init /\ [][Next]_vars

Abs1 == [id |-> 7, type |-> 9, po |-> doc.po, pm |-> doc.pm, items |-> doc.items]
(* the reader recovers the document from the tokens, whatever the split       *)
Pairs(ev) == EventPairs(ev) \cup OriginPairs(ev, TRUE) \cup MagnitudePairs(ev)
             \cup UNION {SecPairs(ev, t, CHOOSE i \in Allowed(ev, t) : TRUE) : t \in TypesOf(ev)}
ReadsDocument ==
  status = "ok" => /\ Len(out) = 1
                   /\ RecordClauses(Abs1, TRUE, TRUE, Pairs(out[1])) = {}
CutIsError == status = "error" => out = <<>>
Emit == (status = "ok" /\ pos > Len(T)) => Case([first |-> doc.first, ws |-> doc.ws, ev |-> Abs1])

(* choosing among magnitudes of one type: one pass keeping the best agrees    *)
(* with the declarative choice, and the choice does not depend on the order   *)
SelItems == [k : {"m"}, id : {0}, type : {5}, f : {<<>>}, ver : {-1, 1, 2}, ct : {-1, 3, 8}]
Scan(s) == FoldLeft(LAMBDA b, i : IF b = 0 \/ Better([items |-> s], i, b) THEN i ELSE b, 0, [i \in 1..Len(s) |-> i])
ASSUME \A s \in SeqsBetween(SelItems, 1, 3) :
         LET ev == [items |-> s, pm |-> 0] IN
         Comparable(ev, 1..Len(s)) => Scan(s) \in Allowed(ev, 5)
ASSUME \A s \in SeqsBetween(SelItems, 2, 3) :
         LET r == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
             val(q, S) == {<<q[i].ver, q[i].ct>> : i \in S}
         IN val(s, Allowed([items |-> s, pm |-> 0], 5)) = val(r, Allowed([items |-> r, pm |-> 0], 5))
=============================================================================
