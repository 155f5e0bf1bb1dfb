------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* Editing, loading, starting, stopping.  Every file that differs from the *)
(* empty one or from a complete one in at most two settings, each with     *)
(* every combination of files that cannot be opened; the walk from one to  *)
(* the next is a behaviour, so that what a load leaves behind matters.     *)
(***************************************************************************)
EXTENDS Config, Json
CONSTANTS Dist      \* how many settings may differ from the base
Val(k) == {k \o "/1", k \o "/2"}
Complete == [k \in Keys |-> k \o "/1"]
Empty == [k \in {} |-> ""]
Keyed == [k \in {"certificate", "certificateKey"} |-> k \o "/1"]
VARIABLES base, f, there, bad, cur, up
vars == <<base, f, there, bad, cur, up>>
CertKeys == {"certificate", "certificateKey", "certificateChain"}
Readable == {v \in UNION {{Effective(f, k)} : k \in CertKeys} : v # ""} \ {Effective(f, k) : k \in bad}
None == [k \in Keys |-> "none"]
Rejected == [k \in Keys |-> "rejected"]
Differ(g) == {k \in Keys : Effective(g, k) # Effective(base, k) \/ (k \in DOMAIN g) # (k \in DOMAIN base)}

Init == /\ base \in {Empty, Keyed, Complete} /\ f = base /\ there = TRUE /\ bad = {} /\ cur = None /\ up = None
Set(k, v) == LET g == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
             IN bad = {} /\ there /\ Cardinality(Differ(g)) <= Dist /\ f' = g /\ cur' = None /\ UNCHANGED <<base, there, bad, up>>
Drop(k) == /\ bad = {} /\ there /\ k \in DOMAIN f
           /\ LET g == [x \in (DOMAIN f) \ {k} |-> f[x]] IN Cardinality(Differ(g)) <= Dist /\ f' = g
           /\ cur' = None /\ UNCHANGED <<base, there, bad, up>>
Break(B) == bad = {} /\ Cardinality(Differ(f)) <= 1 /\ bad' = B /\ cur' = None /\ UNCHANGED <<base, f, there, up>>
Mend == bad # {} /\ bad' = {} /\ cur' = None /\ UNCHANGED <<base, f, there, up>>
Remove == there /\ Cardinality(Differ(f)) <= 1 /\ there' = FALSE /\ cur' = None /\ UNCHANGED <<base, f, bad, up>>
Restore == ~there /\ there' = TRUE /\ cur' = None /\ UNCHANGED <<base, f, bad, up>>
Load == cur = None /\ cur' = (IF Accepts(f, there, Readable) THEN Loaded(f) ELSE Rejected) /\ UNCHANGED <<base, f, there, bad, up>>
Start == cur \notin {None, Rejected} /\ up' = cur /\ UNCHANGED <<base, f, there, bad, cur>>
Stop == up # None /\ up' = None /\ UNCHANGED <<base, f, there, bad, cur>>
Next == \/ \E k \in Keys : Drop(k) \/ \E v \in Val(k) : Set(k, v)
        \/ \E B \in (SUBSET CertKeys) \ {{}} : Break(B)
        \/ Mend \/ Remove \/ Restore \/ Load \/ Start \/ Stop
Spec == Init /\ [][Next]_vars

\* a loaded configuration is exactly the file's, whatever was loaded before; nothing is started that was rejected
Means == cur \in {None, Rejected} \/ \A k \in Keys : cur[k] = (IF k \in DOMAIN f THEN f[k] ELSE Defaults[k])
Refuses == cur \notin {None, Rejected} => there /\ \A k \in bad : Effective(f, k) = ""
Runs == up # Rejected
Distinct == up # None => \A x, y \in Endpoints(up) : x.tr # y.tr => <<x.at, x.port>> # <<y.at, y.port>>
\* the files to be loaded by the real code
Stopped == up = None
Report == cur = None \/ PrintT(<<"VEC", ToJson([f |-> f, there |-> there, bad |-> bad, ok |-> cur # Rejected])>>)
=============================================================================
