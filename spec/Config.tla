------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* lsl.config: sessions that load the configuration file, change values    *)
(* (for good or within a block), and save when they end.  A value is       *)
(* [ty |-> type, v |-> which one]; v = 0 is the default's.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Defaults,   \* Defaults[p]: the default value of parameter p
          Optional    \* the parameters that may change their type
VARIABLES
    disk,     \* the file: [there, cur (written by this version), vals, stamp]
    sess      \* sess[s]: [open, vals, base (as loaded or saved), stamp, must (write in any case), temps]
vars == <<disk, sess>>
Params == DOMAIN Defaults
Closed == [open |-> FALSE, vals |-> Defaults, base |-> Defaults, stamp |-> 0, must |-> FALSE, temps |-> << >>]

Open(s) ==
    /\ ~sess[s].open
    /\ sess' = [sess EXCEPT ![s] =
         IF disk.there THEN [open |-> TRUE, vals |-> disk.vals, base |-> disk.vals, stamp |-> disk.stamp,
                             must |-> ~disk.cur, temps |-> << >>]
         ELSE [open |-> TRUE, vals |-> Defaults, base |-> Defaults, stamp |-> 0, must |-> TRUE, temps |-> << >>]]
    /\ UNCHANGED disk
TypeOk(s, p, x) == p \in Optional \/ sess[s].vals[p].ty = x.ty
Set(s, p, x) ==
    /\ sess[s].open
    /\ sess' = IF TypeOk(s, p, x) THEN [sess EXCEPT ![s].vals[p] = x] ELSE sess
    /\ UNCHANGED disk
Temp(s, p, x) ==
    /\ sess[s].open
    /\ sess' = IF TypeOk(s, p, x) THEN [sess EXCEPT ![s].vals[p] = x, ![s].temps = Append(@, <<p, sess[s].vals[p]>>)] ELSE sess
    /\ UNCHANGED disk
Untemp(s) ==
    /\ sess[s].open /\ sess[s].temps # << >>
    /\ LET t == sess[s].temps[Len(sess[s].temps)] IN
       sess' = [sess EXCEPT ![s].vals[t[1]] = t[2], ![s].temps = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED disk
IsTemp(s, p) == \E i \in 1..Len(sess[s].temps) : sess[s].temps[i][1] = p

Needs(s) == sess[s].must \/ sess[s].vals # sess[s].base
Conflict(s) == disk.there /\ disk.stamp > sess[s].stamp
(* a session that has to give its changes up ends *)
Save(s) ==
    /\ sess[s].open /\ sess[s].temps = << >>
    /\ IF ~Needs(s) THEN UNCHANGED vars
       ELSE IF ~Conflict(s)
       THEN /\ disk' = [there |-> TRUE, cur |-> TRUE, vals |-> sess[s].vals, stamp |-> disk.stamp + 1]
            /\ sess' = [sess EXCEPT ![s].base = sess[s].vals, ![s].stamp = disk.stamp + 1, ![s].must = FALSE]
       ELSE /\ disk' = IF disk.cur THEN disk ELSE [disk EXCEPT !.cur = TRUE, !.stamp = @ + 1]
            /\ sess' = [sess EXCEPT ![s] = Closed]
Close(s) == sess[s].open /\ sess' = [sess EXCEPT ![s] = Closed] /\ UNCHANGED disk
(* a person edits the file; LSL is upgraded (nobody is using it) *)
Edit(p, x) == /\ disk.there
              /\ disk' = [disk EXCEPT !.vals[p] = x, !.stamp = @ + 1] /\ UNCHANGED sess
Upgrade == /\ disk.there /\ \A s \in DOMAIN sess : ~sess[s].open
           /\ disk' = [disk EXCEPT !.cur = FALSE] /\ UNCHANGED sess
----------------------------------------------------------------------------
(* nobody's saved value is lost but by a session that knew it *)
NoLostUpdate == [][\A p \in Params : disk.there /\ disk'.vals[p] # disk.vals[p] =>
                     \/ sess' = sess                                          \* an edit
                     \/ \E s \in DOMAIN sess : sess[s].base = disk.vals]_vars
TypesKept == \A s \in DOMAIN sess : \A p \in Params \ Optional : sess[s].vals[p].ty = Defaults[p].ty
TempsGone == \A s \in DOMAIN sess : sess[s].open /\ ~Needs(s) /\ sess[s].temps = << >> => sess[s].vals = sess[s].base
=============================================================================
