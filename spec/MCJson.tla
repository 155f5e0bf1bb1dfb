------------------------------- MODULE MCJson -------------------------------
(***************************************************************************)
(* Requests, each followed by a newline, received in chunks cut anywhere:  *)
(* by the specification (dec) and by the rule the proxy implements (imp).  *)
(***************************************************************************)
EXTENDS JsonText, TLC, FiniteSets
CONSTANTS Chars, MaxOne, MaxTwo,   \* longest request alone, and of two
          Judged                   \* TRUE: only cuts the proxy is judged for
VARIABLES sent, wire, dec, imp
vars == <<sent, wire, dec, imp>>

UpTo(S, k) == UNION {[1..j -> S] : j \in 0..k}
NoGlue(q) == ~\E k \in 1..(Len(q) - 2) : q[k] = CB /\ q[k + 1] = NL /\ q[k + 2] = OB
\* no newline within a string, no "}\n{" within a request (neither is JSON)
RECURSIVE NLin(_, _, _, _)
NLin(q, k, s, e) == IF k > Len(q) THEN FALSE
                    ELSE IF s /\ q[k] = NL THEN TRUE
                    ELSE IF s THEN NLin(q, k + 1, IF e THEN TRUE ELSE q[k] # Q, IF e THEN FALSE ELSE q[k] = BS)
                    ELSE NLin(q, k + 1, q[k] = Q, FALSE)
\* a backslash outside a string is not JSON either
RECURSIVE BSout(_, _, _, _)
BSout(q, k, s, e) == IF k > Len(q) THEN FALSE
                     ELSE IF ~s /\ q[k] = BS THEN TRUE
                     ELSE IF s THEN BSout(q, k + 1, IF e THEN TRUE ELSE q[k] # Q, IF e THEN FALSE ELSE q[k] = BS)
                     ELSE BSout(q, k + 1, q[k] = Q, FALSE)
Requests(n) == {r \in {<<OB>> \o m \o <<CB>> : m \in UpTo(Chars, n - 2)} : Whole(r) /\ NoGlue(r) /\ ~NLin(r, 1, FALSE, FALSE) /\ ~BSout(r, 1, FALSE, FALSE)}
One == Requests(MaxOne)
Two == Requests(MaxTwo)

Init == /\ \/ \E r \in One : sent = <<r>>
           \/ \E r, t \in Two : sent = <<r, t>>
        /\ wire = FoldLeft(LAMBDA s, r : s \o r \o <<NL>>, <<>>, sent)
        /\ dec = Fresh /\ imp = [buf |-> <<>>, out |-> <<>>]
\* cuts right behind a bracket within a string are a known finding
Safe(d, q) == LET e == Take(d, q) IN ~(e.str /\ q[Len(q)] = CB)
Chunk == /\ wire # <<>>
         /\ \E k \in 1..Len(wire) :
              LET q == SubSeq(wire, 1, k) IN
              /\ ~Judged \/ Safe(dec, q)
              /\ dec' = Take(dec, q)
              /\ imp' = Cut(imp.buf \o q, imp.out)
              /\ wire' = SubSeq(wire, k + 1, Len(wire))
         /\ UNCHANGED sent
Next == Chunk
Spec == Init /\ [][Next]_vars /\ WF_vars(Chunk)

\* the specification: the same requests however the stream is cut
Exact == IsPrefix(dec.out, sent) /\ (wire = <<>> => dec.out = sent)
\* the proxy's rule: the same requests at the same moments, but for blanks around them
Rule  == LET o == imp.out IN Len(o) = Len(dec.out) /\ \A k \in 1..Len(o) : Strip(o[k]) = Strip(dec.out[k])
=============================================================================
