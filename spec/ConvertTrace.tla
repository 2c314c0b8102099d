---------------------------- MODULE ConvertTrace ----------------------------
EXTENDS Convert, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s, err
vars == <<h, l, s, err>>
Chk(c, x, why) == [s |-> x, err |-> IF c THEN <<>> ELSE why]
Mean(e) == IF e.fmt = "x" THEN XMean(e.t) ELSE JMean(e.t)
Apply(x, e) ==
  CASE e.op = "doc" -> [s |-> Mean(e), err |-> <<>>]
    [] e.op \in {"x2j", "j2x"} ->
         IF e.res # "ok" THEN [s |-> x, err |-> <<"conversion-failed", e.why>>]
         ELSE Chk(Same(x, Mean(e)), Mean(e), <<"meaning-changed", e.op>>)
    [] e.op = "end" -> [s |-> x, err |-> <<>>]
    [] OTHER -> [s |-> x, err |-> <<"unexplained", e>>]
TraceInit == h \in 1..Len(Hist) /\ l = 0 /\ s = <<>> /\ err = <<>>
TraceNext == /\ err = <<>> /\ l < Len(Hist[h].ev)
             /\ LET r == Apply(s, Hist[h].ev[l + 1]) IN s' = r.s /\ err' = r.err
             /\ l' = l + 1 /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == err = <<>>
=============================================================================
