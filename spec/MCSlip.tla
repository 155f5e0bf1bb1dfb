------------------------------- MODULE MCSlip -------------------------------
(***************************************************************************)
(* A sender puts frames, and a careless one garbage, on a byte stream; the *)
(* stream hands it over in chunks cut anywhere; the receiver decodes.      *)
(***************************************************************************)
EXTENDS Slip, TLC, FiniteSets
CONSTANTS Addrs, Bytes, MaxPay, MaxJunk, MaxFrames
VARIABLES sent,    \* frames in the order they were sent
          wire,    \* bytes under way
          dec,     \* the receiver
          n        \* frames and pieces of garbage so far
vars == <<sent, wire, dec, n>>

UpTo(S, k) == UNION {[1..j -> S] : j \in 0..k}
Pays == UpTo(Bytes, MaxPay)
\* garbage: anything without END that does not decode, ended by END
Junk == {q \o <<END>> : q \in {q \in UpTo(Bytes \ {END}, MaxJunk) : Take(Fresh, q \o <<END>>).out = <<>>}}

Init == sent = <<>> /\ wire = <<>> /\ dec = Fresh /\ n = 0
Send == n < MaxFrames /\ n' = n + 1 /\ \E a \in Addrs, p \in Pays :
          sent' = Append(sent, [a |-> a, p |-> p]) /\ wire' = wire \o Wire(a, p) /\ UNCHANGED dec
Spoil == n < MaxFrames /\ n' = n + 1 /\ \E q \in Junk : wire' = wire \o q /\ UNCHANGED <<sent, dec>>
Chunk == wire # <<>> /\ \E k \in 1..Len(wire) :
           dec' = Take(dec, SubSeq(wire, 1, k)) /\ wire' = SubSeq(wire, k + 1, Len(wire)) /\ UNCHANGED <<sent, n>>
Next == Send \/ Spoil \/ Chunk
Spec == Init /\ [][Next]_vars /\ WF_vars(Chunk)

\* the frames received are the first ones sent, in order and unaltered ...
InOrder  == IsPrefix(dec.out, sent)
\* ... all of them once nothing is under way, whatever garbage was between them and however it was cut
Complete == wire = <<>> => dec.out = sent /\ Clean(dec)
\* what is under way holds the rest
Rest     == Take(dec, wire).out = sent
\* a frame contains no END but the one that ends it
OneEnd   == \A a \in Addrs : \A p \in UpTo(Bytes, 1) :
              LET w == Wire(a, p) IN {k \in 1..Len(w) : w[k] = END} = {Len(w)}
Arrives  == <>[](wire = <<>>)

ASSUME OneEnd
=============================================================================
