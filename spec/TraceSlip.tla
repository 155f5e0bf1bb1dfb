----------------------------- MODULE TraceSlip ------------------------------
(***************************************************************************)
(* Judges the framing of the real proxy and of the real library byte by    *)
(* byte.  "in": raw bytes reached the decoder of a tunnel server's         *)
(* connection (in the proxy) or of the library's tunnel server; got is     *)
(* what came out of it, per socket address.  "out": payloads were handed   *)
(* in for a socket address; raw is what was put on the wire.               *)
(***************************************************************************)
EXTENDS Slip, Integers, Json, IOUtils, TLC, TLCExt
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, dec, known, skip, ndev
vars == <<i, dec, known, skip, ndev>>
SeqSet(q) == {q[k] : k \in 1..Len(q)}
D(dev, f, x, o) == [n |-> i, c |-> "", dev |-> dev, role |-> "", f |-> f, e |-> x, o |-> o, k |-> 0]

Got(e, a) == FoldLeft(LAMBDA s, g : IF g.a = a THEN s \o g.p ELSE s, <<>>, e.got)
InDev(d, e) ==
    LET addrs == known \cup {e.got[k].a : k \in 1..Len(e.got)}
    IN {D("frames", ToString(a), IF a \in known THEN ToString(Payload(d.out, a)) ELSE "nothing", ToString(Got(e, a)))
          : a \in {a \in addrs : (IF a \in known THEN Payload(d.out, a) ELSE <<>>) # Got(e, a)}}
       \cup (IF e.lost THEN {D("closed", "", "", "")} ELSE {})
OutDev(e) ==
    LET d == Take(Fresh, e.raw)
        fs == d.out
    IN {D("wire", ToString(a), ToString(Got(e, a)), ToString(Payload(fs, a)))
          : a \in {a \in {e.got[k].a : k \in 1..Len(e.got)} \cup {fs[k].a : k \in 1..Len(fs)} : Payload(fs, a) # Got(e, a)}}
       \cup (IF ~Clean(d) THEN {D("wire", "", "whole frames", ToString(d.buf))} ELSE {})
       \cup (IF d.drop > 0 THEN {D("wire", "", "nothing malformed", ToString(d.drop))} ELSE {})
       \cup (IF e.lost THEN {D("closed", "", "", "")} ELSE {})

Init == i = 1 /\ dec = Fresh /\ known = {} /\ skip = TRUE /\ ndev = 0
Step ==
    /\ i <= Len(Tr)
    /\ i' = i + 1
    /\ LET e == Tr[i] IN
       IF e.k = "reset" THEN dec' = Fresh /\ known' = SeqSet(e.known) /\ skip' = FALSE /\ UNCHANGED ndev
       ELSE IF skip THEN UNCHANGED <<dec, known, skip, ndev>>
       ELSE LET d1 == Take([dec EXCEPT !.out = <<>>, !.drop = 0], e.raw)
                d  == IF e.k = "in" THEN InDev(d1, e) ELSE OutDev(e)
            IN /\ dec' = (IF e.k = "in" THEN d1 ELSE dec)
               /\ UNCHANGED known
               /\ IF d = {} THEN UNCHANGED <<skip, ndev>>
                  ELSE /\ skip' = TRUE /\ ndev' = ndev + 1
                       /\ \A x \in d : PrintT(<<"DEV", ToJson(x)>>)
Spec == Init /\ [][Step]_vars
Done == TLCGet("stats").diameter = Len(Tr) + 1
=============================================================================
