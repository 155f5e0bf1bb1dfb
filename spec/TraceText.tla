----------------------------- MODULE TraceText ------------------------------
(***************************************************************************)
(* Judges where the real proxy, and the real library, see the end of a     *)
(* JSON message.  The k-th message of a scenario bears the number k; ids   *)
(* are the numbers of those that were answered (the proxy) or handed on    *)
(* (the library) when chunk q had been received.                           *)
(***************************************************************************)
EXTENDS JsonText, Json, IOUtils, TLC, TLCExt
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, dec, n, skip, ndev
vars == <<i, dec, n, skip, ndev>>
D(dev, x, o) == [n |-> i, c |-> "", dev |-> dev, role |-> "", f |-> "", e |-> x, o |-> o, k |-> 0]

\* what the chunk completes: for the proxy a request ends with its bracket, for the library a message with its line
New(e) == IF e.by = "line" THEN Len(SelectSeq(e.q, LAMBDA c : c = NL)) ELSE Len(Take([dec EXCEPT !.out = <<>>], e.q).out)

Init == i = 1 /\ dec = Fresh /\ n = 0 /\ skip = TRUE /\ ndev = 0
Step ==
    /\ i <= Len(Tr)
    /\ i' = i + 1
    /\ LET e == Tr[i] IN
       IF e.k = "reset" THEN dec' = Fresh /\ n' = 0 /\ skip' = FALSE /\ UNCHANGED ndev
       ELSE IF skip THEN UNCHANGED <<dec, n, skip, ndev>>
       ELSE LET m == New(e)
                x == [k \in 1..m |-> n + k]
                d == (IF e.ids # x THEN {D("messages", ToString(x), ToString(e.ids))} ELSE {})
                     \cup (IF e.lost THEN {D("closed", "", "")} ELSE {})
            IN /\ dec' = [Take(dec, e.q) EXCEPT !.out = <<>>]
               /\ n' = n + m
               /\ IF d = {} THEN UNCHANGED <<skip, ndev>>
                  ELSE /\ skip' = TRUE /\ ndev' = ndev + 1
                       /\ \A y \in d : PrintT(<<"DEV", ToJson(y)>>)
Spec == Init /\ [][Step]_vars
Done == TLCGet("stats").diameter = Len(Tr) + 1
=============================================================================
