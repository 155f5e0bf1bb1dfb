---------------------------- MODULE TraceTunnel ----------------------------
(* Judges recorded executions of both libraries and the proxy together.     *)
EXTENDS Tunnel, Integers, Json, IOUtils, TLCExt
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S, skip, ndev
vars == <<i, S, skip, ndev>>
Has(e, f) == f \in DOMAIN e
SeqSet(q) == {q[k] : k \in 1..Len(q)}
Fun(q, k, v) == [x \in {q[j][k] : j \in 1..Len(q)} |-> q[CHOOSE j \in 1..Len(q) : q[j][k] = x][v]]
D(dev, c, f, x, o) == [n |-> i, c |-> c, dev |-> dev, role |-> "", f |-> f, e |-> x, o |-> o, k |-> 0]

RECURSIVE Do(_, _)
Op(T, o) ==
    CASE o.k = "sv"      -> NewSv(T, o.o, o.u)
      [] o.k = "rc"      -> NewRc(T, o.o, o.u, o.n)
      [] o.k = "start"   -> Start(T, o.o)
      [] o.k = "stop"    -> Stop(T, o.o)
      [] o.k = "connect" -> Connect(T, o.o, o.u)
      [] o.k = "disc"    -> Disconnect(T, o.o)
      [] o.k = "skdisc"  -> Disconnect(T, o.o)
      [] o.k = "send"    -> SendC(T, o.o, o.p)
      [] o.k = "write"   -> SendS(T, o.o, o.p)
      [] o.k = "pdown"   -> ProxyDown(T)
      [] o.k = "pup"     -> ProxyUp(T)
      [] o.k = "cut"     -> IF o.o \in DOMAIN T.sv THEN CutSv(T, o.o) ELSE CutRc(T, o.o)
      [] o.k = "reach"   -> Reach(T, o.o, o.v)
      [] o.k = "adv"     -> [T EXCEPT !.now = o.to]
      [] o.k = "par"     -> Do(T, o.ops)
      [] OTHER           -> T
Do(T, q) == IF q = <<>> THEN T ELSE Do(Op(T, Head(q)), Tail(q))

\* a tunnel server coming back by itself is taken from the observation if it may
RECURSIVE Back(_, _)
Back(T, q) == IF q = <<>> THEN T
              ELSE LET x == Head(q) IN
                   Back(IF x.o \in DOMAIN T.sv /\ x.v /\ CanRun(T, x.o) /\ ~T.sv[x.o].run
                        THEN [T EXCEPT !.sv[x.o].run = TRUE, !.out.run = PutKey(@, x.o, TRUE)] ELSE T, Tail(q))

Judge(T, e) ==
    LET run == Fun(e.run, "o", "v")
        rem == Fun(e.rem, "o", "v")
        rx  == Fun(e.rx, "w", "p")
        exr == T.out.run
    IN {D("run", o, "", IF o \in DOMAIN exr THEN ToString(exr[o]) ELSE "unchanged", IF o \in DOMAIN run THEN ToString(run[o]) ELSE "unchanged")
          : o \in {o \in DOMAIN T.sv : (o \in DOMAIN exr) # (o \in DOMAIN run) \/ (o \in DOMAIN exr /\ exr[o] # run[o])}}
       \cup {D("remote", o, "", IF o \in DOMAIN T.out.rem THEN ToString(T.out.rem[o]) ELSE "unchanged", IF o \in DOMAIN rem THEN ToString(rem[o]) ELSE "unchanged")
          : o \in {o \in DOMAIN T.rc : (o \in DOMAIN T.out.rem) # (o \in DOMAIN rem) \/ (o \in DOMAIN T.out.rem /\ T.out.rem[o] # rem[o])}}
       \cup (IF SeqSet(e.new) # T.out.new \/ Len(e.new) # Cardinality(T.out.new) THEN {D("new", "", "", ToString(T.out.new), ToString(e.new))} ELSE {})
       \cup (IF SeqSet(e.gone) # T.out.gone \/ Len(e.gone) # Cardinality(T.out.gone) THEN {D("gone", "", "", ToString(T.out.gone), ToString(e.gone))} ELSE {})
       \* a stream that ends in this step may have been cut off
       \cup {D("bytes", w, "", IF w \in DOMAIN T.out.rx THEN T.out.rx[w][1] ELSE "nothing", IF w \in DOMAIN rx THEN rx[w] ELSE "nothing")
          : w \in {w \in (DOMAIN T.out.rx) \cup (DOMAIN rx) :
                     /\ w \notin SeqSet(e.cutoff)
                     /\ \/ w \notin DOMAIN rx \/ w \notin DOMAIN T.out.rx
                        \/ T.out.rx[w] # <<rx[w]>>}}
       \cup {D("bytes", w, "not a prefix", "", "") : w \in SeqSet(e.alien)}
       \cup {D("again", o, "", "running", "not") : o \in Overdue(T)}
       \cup (IF e.weird # <<>> THEN {D("weird", "", "", "", e.weird[1])} ELSE {})

\* operations issued at the same moment take effect in some order
Perms(q) == {[k \in 1..Len(q) |-> q[p[k]]] : p \in {f \in [1..Len(q) -> 1..Len(q)] : \A a, b \in 1..Len(q) : a # b => f[a] # f[b]}}
After(e, q) == LET T == Back(Do(Begin(S), q), e.run) IN [T |-> T, d |-> Judge(T, e)]
Result(e) == IF e.k # "par" THEN After(e, <<e>>)
             ELSE LET good == {q \in Perms(e.ops) : After(e, q).d = {}}
                  IN After(e, IF good = {} THEN e.ops ELSE CHOOSE q \in good : TRUE)

Init == i = 1 /\ S = Init0 /\ skip = TRUE /\ ndev = 0
Step ==
    /\ i <= Len(Tr)
    /\ i' = i + 1
    /\ LET e == Tr[i] IN
       IF e.k = "reset" THEN S' = Init0 /\ skip' = FALSE /\ UNCHANGED ndev
       ELSE IF skip THEN UNCHANGED <<S, skip, ndev>>
       ELSE LET r == Result(e)
            IN /\ S' = r.T
               /\ IF r.d = {} THEN UNCHANGED <<skip, ndev>>
                  ELSE /\ skip' = TRUE /\ ndev' = ndev + 1
                       /\ \A x \in r.d : PrintT(<<"DEV", ToJson(x)>>)
                       /\ PrintT(<<"EXP", ToJson([n |-> i, out |-> r.T.out])>>)
Next == Step
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Tr) + 1
=============================================================================
