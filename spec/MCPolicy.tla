------------------------------ MODULE MCPolicy ------------------------------
(* The buy policy by design: whatever is delivered on its requests and taken from its stock,  *)
(* the stock stays within the buffer, the fill level and the tracker, a step's deliveries     *)
(* within the throughput, a cycle's within the cumulative limit, and nothing is asked for     *)
(* during a declared dormancy or while the stock is above the reorder level.                  *)
(* Quantities in quarters of the driver's grid unit times 250.                                *)
EXTENDS Policy, Json
CONSTANTS TMax

VARIABLES cfg, x, p, t, ph, asked, got, rows, tr
vars == <<cfg, x, p, t, ph, asked, got, rows, tr>>
Q == 250
U(n) == n * Q
Cfgs ==
  [mode : {"plain"}, bc : {U(8)}, tc : {0, U(5)}, thr : {Inf}, q : {0}, fill : {Inf}, req : {Inf}, cap : {0}, ad : {0}, dd : {0}, sz : {16}, pol : {""}] \cup
  [mode : {"cycle"}, bc : {U(8)}, tc : {0, U(5)}, thr : {U(3), Inf}, q : {0}, fill : {Inf}, req : {Inf}, cap : {0}, ad : {1, 2}, dd : {0, 1, 2}, sz : {8, 16}, pol : {""}] \cup
  [mode : {"quant"}, bc : {U(8)}, tc : {0, U(5)}, thr : {U(3), U(20)}, q : {U(2), U(3)}, fill : {Inf}, req : {Inf}, cap : {0}, ad : {0}, dd : {0}, sz : {16}, pol : {""}] \cup
  [mode : {"inv"}, bc : {U(8), Inf}, tc : {0, U(5)}, thr : {U(3), Inf}, q : {0}, fill : {U(6), U(9)}, req : {U(2), U(4)}, cap : {0}, ad : {0}, dd : {0}, sz : {16}, pol : {"sS"}] \cup
  [mode : {"inv"}, bc : {U(8), Inf}, tc : {0, U(5)}, thr : {U(3), Inf}, q : {U(2), U(4)}, fill : {U(0)}, req : {0, U(2)}, cap : {0}, ad : {0}, dd : {0}, sz : {16}, pol : {"RQ"}] \cup
  [mode : {"cum"}, bc : {U(8), Inf}, tc : {0, U(5)}, thr : {U(3), Inf}, q : {0}, fill : {Inf}, req : {Inf}, cap : {U(4), U(6)}, ad : {0}, dd : {1, 2}, sz : {16}, pol : {""}]

Pol(c) ==
  LET base == [B0 EXCEPT !.b = 1, !.k = IF c.tc = 0 THEN 0 ELSE 1, !.thr = c.thr, !.com = "u" :> 1]
      ds == Max2(c.ad, 1) IN
  CASE c.mode = "plain" -> [base EXCEPT !.ae = 1, !.de = -1]
    [] c.mode = "cycle" -> [base EXCEPT !.ad = <<c.ad>>, !.dd = <<c.dd>>, !.sd = <<c.sz>>, !.ae = c.ad, !.de = ds + c.dd]
    [] c.mode = "quant" -> [base EXCEPT !.q = c.q, !.ae = 1, !.de = -1]
    [] c.mode = "inv" /\ c.pol = "sS" -> [base EXCEPT !.req = Min2(c.req, c.bc), !.fill = Min2(c.fill, c.bc), !.ae = 1, !.de = -1]
    [] c.mode = "inv" /\ c.pol = "RQ" -> [base EXCEPT !.req = Min2(c.req, c.bc), !.fill = Min2(c.req + c.q, c.bc), !.q = c.q, !.ae = 1, !.de = -1]
    [] c.mode = "cum" -> [base EXCEPT !.cap = Min2(c.cap, c.bc), !.dd = <<c.dd>>, !.ae = 1, !.de = -1]
Init ==
  /\ cfg \in Cfgs
  /\ x = [bf |-> <<[q |-> 0, cap |-> cfg.bc, comp |-> ""], [q |-> 0, cap |-> U(8), comp |-> ""]>>, tk |-> IF cfg.tc = 0 THEN <<>> ELSE <<[cap |-> cfg.tc, b |-> <<1, 2>>]>>]
  /\ p = Pol(cfg) /\ t = 0 /\ ph = "take" /\ asked = 0 /\ got = 0 /\ tr = <<>>
  /\ rows = IF cfg.mode = "cycle" THEN {<<Max2(cfg.ad, 1), cfg.dd>>} ELSE {}

Move == \* the plant uses material, or another part of it stores some
  /\ ph = "take" /\ t < TMax
  /\ \/ \E n \in {0, 2, 5} : x' = [x EXCEPT !.bf[1].q = Max2(0, @ - U(n))] /\ tr' = Append(tr, <<"take", U(n)>>)
     \/ cfg.tc > 0 /\ x.bf[2].q = 0 /\ TSpace(x, 1) >= U(2) /\ x' = [x EXCEPT !.bf[2].q = U(2)] /\ tr' = Append(tr, <<"put", U(2)>>)
  /\ ph' = "ask" /\ UNCHANGED <<cfg, p, t, asked, got, rows>>
Size == IF cfg.mode = "cycle" THEN cfg.sz ELSE 16
Ask ==
  /\ ph = "ask"
  /\ asked' = IF ~Asks(x, p, t, Size) THEN 0 ELSE IF p.q > 0 THEN Lots(x, p, Size) * p.q ELSE Amount(x, p, t, Size)
  /\ LET renew == t = p.de
         ds == Max2(cfg.ad + t, 1) IN
     IF ~renew THEN UNCHANGED <<p, rows>>
     ELSE IF p.cap > 0 THEN p' = [p EXCEPT !.de = -1] /\ UNCHANGED rows
     ELSE p' = [p EXCEPT !.ae = t + cfg.ad, !.de = ds + cfg.dd] /\ rows' = rows \cup {<<ds, cfg.dd>>}
  /\ got' = 0 /\ ph' = "fill" /\ UNCHANGED <<cfg, x, t, tr>>
\* an unbounded request is met with whatever the market has
Met == IF asked >= Inf THEN U(2) ELSE asked
Delivery(s) == IF p.q > 0 THEN (((Met \div p.q) * s) \div 16) * p.q ELSE ((Met * s) \div (16 * 125)) * 125
Fill ==
  /\ ph = "fill"
  /\ \E s \in {0, 8, 16} :
       LET d == Delivery(s)
           cyc == p.cyc + d
           full == p.cap > 0 /\ p.cap - cyc < Eps
       IN /\ x' = [x EXCEPT !.bf[1].q = @ + d] /\ got' = d
          /\ p' = IF p.cap = 0 THEN p ELSE IF full THEN [p EXCEPT !.cyc = 0, !.de = t + 1 + cfg.dd] ELSE [p EXCEPT !.cyc = cyc]
          /\ rows' = IF full THEN rows \cup {<<t + 1, cfg.dd>>} ELSE rows
          /\ tr' = Append(tr, <<"fill", s>>)
  /\ ph' = "next" /\ UNCHANGED <<cfg, t, asked>>
Step == ph = "next" /\ t' = t + 1 /\ ph' = "take" /\ UNCHANGED <<cfg, x, p, asked, got, rows, tr>>
Next == Move \/ Ask \/ Fill \/ Step
Spec == Init /\ [][Next]_vars

Within == Qty(x, 1) <= cfg.bc /\ (cfg.tc > 0 => TQty(x, 1) <= cfg.tc)
InLevel == got > 0 => Qty(x, 1) <= p.fill
Rate == got <= p.thr
Cycle == p.cap > 0 => p.cyc < p.cap
\* cumulative policies sleep through every step of the declared dormancy, cyclic ones too
Quiet == ph = "fill" /\ (\E r \in rows : t >= r[1] /\ t < r[1] + r[2]) => asked = 0
Reorder == ph = "fill" /\ asked > 0 => Held(x, p) <= p.req
Whole == p.q > 0 => (asked % p.q) = 0
NoTrace == <<cfg, x, p, t, ph, asked, got, rows>>
Schedules == (t = TMax /\ ph = "take") => PrintT("BEHAVIOUR " \o ToJson(<<cfg, tr>>))
=============================================================================
