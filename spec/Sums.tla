-------------------------------- MODULE Sums --------------------------------
(* Arithmetic on frames: sample by sample, in eighths; order by time. *)
EXTENDS Integers, Sequences, FiniteSets
U == 8
Abs(x) == IF x < 0 THEN -x ELSE x
(* ---- one sample with another: <<re, im>>, in eighths; Exact if the result is a whole number of eighths and not large ---- *)
Prod(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
Size2(b) == b[1]*b[1] + b[2]*b[2]
Over(a, b) == LET n == Prod(a, <<b[1], -b[2]>>) IN <<n[1]*U, n[2]*U>>
Exact(op, a, b) == CASE op = "*" -> LET p == Prod(a, b) IN p[1] % U = 0 /\ p[2] % U = 0 /\ Abs(p[1]) < 200000 /\ Abs(p[2]) < 200000
                     [] op = "/" -> Size2(b) # 0 /\ Abs(a[1]) < 2000 /\ Abs(a[2]) < 2000 /\ Abs(b[1]) < 300 /\ Abs(b[2]) < 300 /\ Over(a, b)[1] % Size2(b) = 0 /\ Over(a, b)[2] % Size2(b) = 0
                     [] op = "//" -> b[1] # 0 /\ b[2] = 0 /\ a[2] = 0
                     [] OTHER -> Abs(a[1]) + Abs(b[1]) < 200000 /\ Abs(a[2]) + Abs(b[2]) < 200000
Floor(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
One(op, a, b) == CASE op = "+" -> <<a[1] + b[1], a[2] + b[2]>> [] op = "-" -> <<a[1] - b[1], a[2] - b[2]>>
                   [] op = "*" -> LET p == Prod(a, b) IN <<p[1] \div U, p[2] \div U>>
                   [] op = "/" -> <<Over(a, b)[1] \div Size2(b), Over(a, b)[2] \div Size2(b)>>
                   [] op = "//" -> <<U*Floor(a[1], b[1]), 0>>
(* ---- frames: kind, time, products, samples (for spectra those of all products one after the other) ---- *)
Spectra(f) == f.kind = "spec"
With(h, o) == CASE o.with = "frame" -> h[o.j].d [] o.with = "array" -> o.vals [] OTHER -> [k \in 1..Len(h[o.i].d) |-> o.v]
Has(f) == {f.prods[k] : k \in 1..Len(f.prods)}
Fits(h, o) == o.with # "frame" \/ (Spectra(h[o.i]) = Spectra(h[o.j]) /\ Has(h[o.i]) \subseteq Has(h[o.j]))
Complex(f) == f.kind \notin {"spec", "real"}
(* what cannot be done: frames of other products, complex numbers rounded down, things that are not numbers *)
Refused(h, o) == (Complex(h[o.i]) /\ o.f = "//") \/ ~Fits(h, o) \/ o.with = "other"
(* a frame that has more products than are asked for, and kinds that are mixed, are left open *)
Same(h, o) == o.with = "frame" => (h[o.i].kind = h[o.j].kind /\ h[o.i].prods = h[o.j].prods)
Able(h, o) == Refused(h, o) \/ (Same(h, o) /\ LET w == With(h, o) IN Len(w) = Len(h[o.i].d) /\ \A k \in 1..Len(w) : Exact(o.f, h[o.i].d[k], w[k]))
Result(h, o) == LET w == With(h, o) IN [h[o.i] EXCEPT !.d = [k \in 1..Len(w) |-> One(o.f, h[o.i].d[k], w[k])]]
(* in place, or a new frame *)
Step(h, o) == CASE o.op = "new" -> Append(h, o.frame)
                [] o.op = "do" -> IF Refused(h, o) THEN h ELSE IF o.inplace THEN [h EXCEPT ![o.i] = Result(h, o)] ELSE Append(h, Result(h, o))
                [] o.op = "set" -> [h EXCEPT ![o.i].t = o.t, ![o.i].valid = o.valid, ![o.i].tag = o.tag]
                [] OTHER -> h
Order(a, b) == [lt |-> a < b, le |-> a <= b, eq |-> a = b, ne |-> a # b, ge |-> a >= b, gt |-> a > b]
=============================================================================
