---------------------------- MODULE TraceConfig ----------------------------
(***************************************************************************)
(* Judges recorded loads of configuration files by the real code and what  *)
(* a proxy started with the loaded configuration offers.                   *)
(***************************************************************************)
EXTENDS Config, Integers, Json, IOUtils, TLCExt

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, C, run, skip, ndev
vars == <<i, C, run, skip, ndev>>

SeqSet(q) == {q[k] : k \in 1..Len(q)}
Fun(q) == [k \in {q[j].k : j \in 1..Len(q)} |-> q[CHOOSE j \in 1..Len(q) : q[j].k = k].v]
D(dev, f, x, o) == [n |-> i, c |-> "", dev |-> dev, role |-> "", f |-> f, e |-> x, o |-> o, k |-> 0]
None == [acc |-> FALSE]

\* files: path -> digest of what is in it (of those that can be opened)
LoadE(e) ==
    LET f == Fun(e.file)
        files == Fun(e.readable)
        acc == Accepts(f, e.there, DOMAIN files)
    IN [acc |-> acc, c |-> Loaded(f), files |-> files]
LoadDev(e) ==
    LET X == LoadE(e) IN
    IF e.ok # X.acc THEN {D("conf-accept", "", ToString(X.acc), ToString(e.ok))}
    ELSE IF ~X.acc THEN {}
    ELSE LET got == Fun(e.got) IN
         {D("conf-value", k, X.c[k], IF k \in DOMAIN got THEN got[k] ELSE "?") : k \in {k \in Keys : k \notin DOMAIN got \/ got[k] # X.c[k]}}
         \cup (IF got["certificateDigest"] # X.files[X.c.certificate] THEN {D("conf-value", "certificateDigest", X.files[X.c.certificate], got["certificateDigest"])} ELSE {})
         \cup (IF got["key"] # "loaded" THEN {D("conf-value", "key", "loaded", got["key"])} ELSE {})
         \cup (IF X.c.certificateChain # "" /\ got["chainDigest"] # X.files[X.c.certificateChain]
               THEN {D("conf-value", "chainDigest", X.files[X.c.certificateChain], got["chainDigest"])} ELSE {})

\* a connection attempt to an address: who answers, in plain or after a TLS handshake
ProbeDev(e) ==
    LET eps == IF run = None THEN {} ELSE {p \in Endpoints(run.c) : p.tr = e.tr /\ p.at = e.at /\ p.port = e.port}
        tls == \E p \in eps : p.tls = "true"
        exp == IF eps = {} THEN "refused"
               ELSE IF tls # (e.how = "tls") THEN "no service"
               ELSE "served"
    IN (IF e.res # exp THEN {D("probe", e.tr, exp, e.res)} ELSE {})
       \cup (IF e.res = "served" /\ exp = "served" /\ e.name # run.c.name THEN {D("probe-name", e.tr, run.c.name, e.name)} ELSE {})
       \cup (IF e.res = "served" /\ exp = "served" /\ e.how = "tls" /\ e.cert # run.files[run.c.certificate]
             THEN {D("probe-cert", e.tr, run.files[run.c.certificate], e.cert)} ELSE {})

\* an idle connection is closed after the configured time (decimal values within the range tested)
IdleDev(e) ==
    LET t == e.want   \* the number the effective value spells; checked below
    IN IF run = None THEN {}
       ELSE IF ToString(t) # run.c.inactiveTimeout THEN {D("idle", "driver", run.c.inactiveTimeout, ToString(t))}
       ELSE IF e.at < 0 \/ e.at < t - (t \div 20) - 5 \/ e.at > t + (t \div 20) + 1010 THEN {D("idle", "", ToString(t), ToString(e.at))} ELSE {}

Init == i = 1 /\ C = None /\ run = None /\ skip = TRUE /\ ndev = 0
Step ==
    /\ i <= Len(Tr)
    /\ i' = i + 1
    /\ LET e == Tr[i] IN
       IF e.k = "reset" THEN C' = None /\ run' = None /\ skip' = FALSE /\ UNCHANGED ndev
       ELSE IF skip THEN UNCHANGED <<C, run, skip, ndev>>
       ELSE LET d == CASE e.k = "load"  -> LoadDev(e)
                       [] e.k = "start" -> IF e.ok # C.acc THEN {D("start", "", ToString(C.acc), ToString(e.ok))} ELSE {}
                       [] e.k = "probe" -> ProbeDev(e)
                       [] e.k = "idle"  -> IdleDev(e)
                       [] e.k = "exec"  -> LET x == IF C.acc THEN "running" ELSE "exit 1" IN IF e.res # x THEN {D("exec", "", x, e.res)} ELSE {}
                       [] e.k = "logfile" -> LET x == run # None /\ ((e.path = run.log /\ run.log # "") \/ (run.log = "" /\ run.c.writeLogs = "true" /\ run.c.logFile = e.path))
                                             IN IF e.written # x THEN {D("logfile", e.path, ToString(x), ToString(e.written))} ELSE {}
                       [] OTHER -> {}
            IN /\ C' = IF e.k = "load" THEN LoadE(e) ELSE C
               /\ run' = CASE e.k = "start" -> (IF C.acc THEN C ELSE run)
                            [] e.k = "exec" -> (IF C.acc THEN [acc |-> C.acc, c |-> C.c, files |-> C.files, log |-> e.log] ELSE None)
                            [] e.k = "stop" -> None [] OTHER -> run
               /\ IF d = {} THEN UNCHANGED <<skip, ndev>>
                  ELSE /\ skip' = TRUE /\ ndev' = ndev + 1
                       /\ \A x \in d : PrintT(<<"DEV", ToJson(x)>>)
Next == Step
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Tr) + 1
=============================================================================
