------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* Where a request ends on a connection that carries JSON: at the bracket  *)
(* which closes its outermost one, wherever the stream is cut.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
OB == 123  CB == 125  OA == 91  CA == 93  Q == 34  BS == 92  NL == 10
Blank == {9, 10, 13, 32}

Fresh == [depth |-> 0, str |-> FALSE, esc |-> FALSE, buf |-> <<>>, out |-> <<>>]
Char(d, c) ==
    LET e == [d EXCEPT !.buf = Append(@, c)] IN
    CASE d.depth = 0 /\ c \in Blank -> d
      [] d.str /\ d.esc             -> [e EXCEPT !.esc = FALSE]
      [] d.str /\ c = BS            -> [e EXCEPT !.esc = TRUE]
      [] d.str /\ c = Q             -> [e EXCEPT !.str = FALSE]
      [] d.str                      -> e
      [] c = Q                      -> [e EXCEPT !.str = TRUE]
      [] c \in {OB, OA}             -> [e EXCEPT !.depth = @ + 1]
      [] c \in {CB, CA}             -> IF d.depth > 1 THEN [e EXCEPT !.depth = @ - 1]
                                       ELSE [Fresh EXCEPT !.out = Append(d.out, e.buf)]
      [] OTHER                      -> e
Take(d, q) == FoldLeft(Char, d, q)
\* q is one request and nothing else
Whole(q) == LET d == Take(Fresh, q) IN d.out = <<q>> /\ d.buf = <<>>

(* The rule the proxy implements: what has been received is cut at each    *)
(* "}\n{"; what is left is taken for a request if it ends with a bracket   *)
(* (and perhaps a newline) and no bracket is open, unless it is open       *)
(* within a string.                                                        *)
Ends(b) == \/ b # <<>> /\ b[Len(b)] = CB
           \/ Len(b) > 1 /\ b[Len(b)] = NL /\ b[Len(b) - 1] = CB
Open(b) == LET d == FoldLeft(LAMBDA s, c :
                        IF s.str THEN IF s.esc THEN [s EXCEPT !.esc = FALSE] ELSE IF c = BS THEN [s EXCEPT !.esc = TRUE] ELSE IF c = Q THEN [s EXCEPT !.str = FALSE] ELSE s
                        ELSE IF c = Q THEN [s EXCEPT !.str = TRUE] ELSE IF c = OB THEN [s EXCEPT !.n = @ + 1] ELSE IF c = CB THEN [s EXCEPT !.n = @ - 1] ELSE s,
                     [str |-> FALSE, esc |-> FALSE, n |-> 0], b)
           IN ~d.str /\ d.n > 0
RECURSIVE Cut(_, _)
Cut(b, out) ==
    LET ks == {k \in 1..(Len(b) - 2) : b[k] = CB /\ b[k + 1] = NL /\ b[k + 2] = OB} IN
    IF ks # {} THEN LET k == CHOOSE k \in ks : \A j \in ks : k <= j
                    IN Cut(SubSeq(b, k + 2, Len(b)), Append(out, SubSeq(b, 1, k)))
    ELSE IF Ends(b) /\ ~Open(b) THEN [buf |-> <<>>, out |-> Append(out, b)]
    ELSE [buf |-> b, out |-> out]
Strip(b) == SelectSeq(b, LAMBDA c : c # NL)
=============================================================================
