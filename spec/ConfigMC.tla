------------------------------ MODULE ConfigMC ------------------------------
EXTENDS Config, Randomization, TLC, Json, IOUtils, CSV
CONSTANTS MaxOps, MaxStamp, Emit
VARIABLES hist, ops
allvars == <<vars, hist, ops>>
V(t, v) == [ty |-> t, v |-> v]
MCDefaults == <<V("int", 0), V("none", 0), V("str", 0)>>
MCOptional == {2, 3}
MCVals(p) == CASE p = 1 -> {V("int", 0), V("int", 1), V("bool", 1)}
               [] p = 2 -> {V("none", 0), V("str", 1)}
               [] p = 3 -> {V("none", 0), V("str", 1)}
GenVals(p) == CASE p = 1 -> {V("int", 0), V("int", 1), V("str", 1)}
                [] p = 2 -> {V("bool", 1), V("bool", 0), V("int", 1)}
                [] p = 3 -> {V("str", 0), V("str", 1)}
                [] p = 4 -> {V("none", 0), V("str", 1), V("int", 1)}
                [] p = 5 -> {V("none", 0), V("str", 0), V("str", 1)}
GenDefaults == <<V("int", 0), V("bool", 0), V("str", 0), V("none", 0), V("str", 0)>>
GenOptional == {4, 5}
Vals(p) == IF Emit THEN GenVals(p) ELSE MCVals(p)
Sess == {1, 2}
(* walks: one parameter and value at a time, so that opening and saving get their share *)
One(S) == IF Emit THEN RandomSubset(1, S) ELSE S
Init == /\ disk = [there |-> FALSE, cur |-> TRUE, vals |-> Defaults, stamp |-> 0]
        /\ sess = [s \in Sess |-> Closed] /\ hist = << >> /\ ops = 0
Do(ev) == /\ hist' = IF Emit THEN Append(hist, ev) ELSE hist
          /\ ops' = ops + 1
Next == /\ ops < MaxOps
        /\ \/ \E s \in Sess : Open(s) /\ Do([op |-> "open", s |-> s])
           \/ \E s \in Sess, p \in One(Params) : \E x \in One(Vals(p)) :
                ~IsTemp(s, p) /\ Set(s, p, x) /\ Do([op |-> "set", s |-> s, p |-> p, x |-> x])
           \/ \E s \in Sess, p \in One(Params) : \E x \in One(Vals(p)) :
                Len(sess[s].temps) < 2 /\ Temp(s, p, x) /\ Do([op |-> "temp", s |-> s, p |-> p, x |-> x])
           \/ \E s \in Sess : Untemp(s) /\ Do([op |-> "untemp", s |-> s])
           \/ \E s \in Sess : Save(s) /\ Do([op |-> "save", s |-> s])
           \/ \E s \in Sess : Close(s) /\ Do([op |-> "close", s |-> s])
           \/ \E p \in One(Params) : \E x \in One(Vals(p)) : /\ (p \in Optional \/ x.ty = Defaults[p].ty)
                                                    /\ Edit(p, x) /\ Do([op |-> "edit", p |-> p, x |-> x])
           \/ Upgrade /\ Do([op |-> "upgrade"])
Spec == Init /\ [][Next]_allvars
Bound == disk.stamp <= MaxStamp
View == <<vars, IF Emit THEN ops ELSE 0>>
EmitDone == ops = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT)
=============================================================================
