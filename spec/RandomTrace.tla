--------------------------- MODULE RandomTrace ---------------------------
(* Recorded executions of the real random number service.                    *)
EXTENDS Random, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, k, err
vars == <<h, l, k, err>>
K0 == [segs |-> <<>>, ds |-> <<>>, done |-> FALSE]
Good(x) == [k |-> x, err |-> <<>>]
Bad(x, why) == [k |-> x, err |-> why]

\* one more call and its result in the current segment
Called(x, e, r) == [x EXCEPT !.segs[Len(x.segs)].calls = Append(@, e.call), !.segs[Len(x.segs)].res = Append(@, r)]
Same(x) ==
  LET n == Len(x.segs)
      s == x.segs[n]
      i == Len(s.calls)
  IN \A a \in 1..(n - 1) :
       LET z == x.segs[a] IN
       (z.seed = s.seed /\ Len(z.calls) >= i /\ \A j \in 1..i : z.calls[j] = s.calls[j]) => z.res[i] = s.res[i]
\* three raw draws in a row from different seeds are not all the same
Raw3(s) == Len(s.calls) >= 3 /\ \A i \in 1..3 : s.calls[i] = "draw raw 0 0 0 0"
Apart(x) ==
  LET n == Len(x.segs)
      s == x.segs[n]
  IN (Raw3(s) /\ Len(s.calls) = 3) =>
     /\ \A a \in 1..(n - 1) : LET z == x.segs[a] IN (Raw3(z) /\ z.seed # s.seed) => SubSeq(z.res, 1, 3) # SubSeq(s.res, 1, 3)
     /\ ~(s.res[1] = s.res[2] /\ s.res[2] = s.res[3])
Fresh(x, e, r) ==
  LET y == Called(x, e, r) IN
  IF ~Same(y) THEN Bad(y, <<"not-reproducible", e>>)
  ELSE IF ~Apart(y) THEN Bad(y, <<"not-random", e>>)
  ELSE Good(y)

Draw(x, e) ==
  IF e.ty # "raw" /\ ~InSup(Sup(e), e.f, e.x) THEN Bad(x, <<"outside", e>>) ELSE Fresh(x, e, e.v)
Dist(x, e) ==
  IF ~Possible(e) THEN (IF e.res = "ValueError" THEN Fresh([x EXCEPT !.ds = [i \in DOMAIN @ \ {e.n} |-> @[i]]], e, e.res) ELSE Bad(x, <<"accepted", e>>))
  ELSE IF e.res # "ok" THEN Bad(x, <<"refused", e>>)
  ELSE IF e.acc # Told(e) THEN Bad(x, <<"parameters", e, Told(e)>>)
  ELSE Fresh([x EXCEPT !.ds = (e.n :> e) @@ @], e, e.res)
Sample(x, e) ==
  IF e.on # (e.n \in DOMAIN x.ds) THEN Bad(x, <<"exists", e>>)
  ELSE IF ~e.on THEN Good(x)
  ELSE LET d == x.ds[e.n] IN
       IF ~InSup(Sup(d), e.f, e.x) \/ ~Choice(d, e.f, e.x) THEN Bad(x, <<"outside", e, d>>) ELSE Fresh(x, e, e.v)
Many(x, e) ==
  IF e.on # (e.n \in DOMAIN x.ds) THEN Bad(x, <<"exists", e>>)
  ELSE IF ~e.on THEN Good(x)
  ELSE LET d == x.ds[e.n]
           s == Sup(d) IN
       IF e.lo < s.lo \/ ~(e.hi < s.hi \/ (e.hi = s.hi /\ e.hx /\ ~s.open)) \/ (s.whole /\ ~e.whole) THEN Bad(x, <<"outside", e, d>>)
       ELSE IF ~Plausible(d, e.m, e.sum) THEN Bad(x, <<"mean", e, d, Mean(d)>>)
       ELSE IF d.ty \in {"iuni", "runi", "ibin", "rbin"} /\ e.m >= 128 /\ s.hi - s.lo > 16 /\ d.a # d.b /\ (d.ty \in {"ibin", "rbin"} => d.a \in 2..6)
               /\ (e.lo > s.lo + ((s.hi - s.lo) \div 4) \/ e.hi < s.hi - ((s.hi - s.lo) \div 4)) THEN Bad(x, <<"support", e, d>>)
       ELSE Fresh(x, e, <<e.v, e.sum>>)
Apply(x, e) ==
  CASE e.op = "seed" -> IF e.seed # e.s \/ e.stride # e.st THEN Bad(x, <<"seed", e>>)
                        ELSE Good([x EXCEPT !.segs = Append(@, [seed |-> e.s, calls |-> <<>>, res |-> <<>>]), !.ds = <<>>])
    [] e.op = "draw" -> Draw(x, e)
    [] e.op = "dist" -> Dist(x, e)
    [] e.op = "sample" -> Sample(x, e)
    [] e.op = "many" -> Many(x, e)
    [] e.op = "end" -> Good([x EXCEPT !.done = TRUE])
    [] e.op = "crash" -> Bad(x, <<"crash", e>>)
Init == h \in 1..Len(Hist) /\ l = 0 /\ k = K0 /\ err = <<>>
Next ==
  /\ err = <<>>
  /\ \/ /\ l < Len(Hist[h].ev)
        /\ LET r == Apply(k, Hist[h].ev[l + 1]) IN k' = r.k /\ err' = r.err
        /\ l' = l + 1
     \/ /\ l = Len(Hist[h].ev)
        /\ ~k.done
        /\ err' = <<"did-not-finish">>
        /\ UNCHANGED <<k, l>>
  /\ h' = h
TraceSpec == Init /\ [][Next]_vars
Accepted == err = <<>>
=============================================================================
