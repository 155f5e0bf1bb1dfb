-------------------------------- MODULE Slip --------------------------------
(***************************************************************************)
(* The framing of a tunnel server's connection, byte by byte.  A frame is  *)
(* a 16 bit socket address, high byte first, and a payload; both are       *)
(* escaped and the frame is ended by END.  What does not decode is dropped *)
(* up to the END that ends it; nothing between two ENDs is no frame.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
END  == 192
ESC  == 219
TEND == 220
TESC == 221

\* ---- encoding
Escaped(b)  == CASE b = END -> <<ESC, TEND>> [] b = ESC -> <<ESC, TESC>> [] OTHER -> <<b>>
Encode(q)   == FoldLeft(LAMBDA s, b : s \o Escaped(b), <<>>, q)
Head16(a)   == <<a \div 256, a % 256>>
Wire(a, p)  == Encode(Head16(a) \o p) \o <<END>>

\* ---- decoding, a byte at a time: what is left over of one chunk is where the next goes on
Fresh == [buf |-> <<>>, esc |-> FALSE, bad |-> FALSE, out |-> <<>>, drop |-> 0]
Clean(d) == d.buf = <<>> /\ ~d.esc /\ ~d.bad
Finish(d) ==
    CASE Clean(d) -> d
      [] ~Clean(d) /\ (d.esc \/ d.bad \/ Len(d.buf) < 2) -> [Fresh EXCEPT !.out = d.out, !.drop = d.drop + 1]
      [] OTHER -> [Fresh EXCEPT !.out = Append(d.out, [a |-> d.buf[1] * 256 + d.buf[2], p |-> SubSeq(d.buf, 3, Len(d.buf))]), !.drop = d.drop]
Byte(d, b) ==
    CASE b = END -> Finish(d)
      [] d.bad   -> d
      [] d.esc   -> CASE b = TEND -> [d EXCEPT !.esc = FALSE, !.buf = Append(@, END)]
                      [] b = TESC -> [d EXCEPT !.esc = FALSE, !.buf = Append(@, ESC)]
                      [] OTHER    -> [d EXCEPT !.bad = TRUE]
      [] b = ESC -> [d EXCEPT !.esc = TRUE]
      [] OTHER   -> [d EXCEPT !.buf = Append(@, b)]
Take(d, q) == FoldLeft(Byte, d, q)

\* what the frames carry to address a
Payload(fs, a) == FoldLeft(LAMBDA s, f : IF f.a = a THEN s \o f.p ELSE s, <<>>, fs)
=============================================================================
