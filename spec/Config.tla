------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration of the proxy: what a file means, when it is rejected, *)
(* and what the started proxy offers.  Values are strings in a canonical   *)
(* form (true/false, decimal numbers, addresses as they are written).      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Defaults == [name |-> "nymea-remoteproxy", writeLogs |-> "false", logFile |-> "/var/log/nymea-remoteproxy.log",
             logEngineEnabled |-> "false", monitorSocket |-> "/tmp/nymea-remoteproxy.monitor",
             jsonRpcTimeout |-> "10000", inactiveTimeout |-> "8000",
             sslEnabled |-> "true", certificate |-> "/etc/ssl/certs/ssl-cert-snakeoil.pem",
             certificateKey |-> "/etc/ssl/private/ssl-cert-snakeoil.key", certificateChain |-> "",
             unixSocketFileName |-> "/run/nymea-remoteproxy.socket",
             wsHost |-> "127.0.0.1", wsPort |-> "2212", tcpHost |-> "127.0.0.1", tcpPort |-> "2213"]
Keys == DOMAIN Defaults

\* f: the settings present in the file.  readable: path -> contents (a digest) of the files that can be opened
Effective(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Defaults[k]
Loaded(f) == [k \in Keys |-> Effective(f, k)]
Accepts(f, there, readable) ==
    /\ there
    /\ Effective(f, "certificate") \in readable
    /\ Effective(f, "certificateKey") \in readable
    /\ Effective(f, "certificateChain") \in readable \cup {""}

\* what the proxy started with configuration c offers
Endpoints(c) == {[tr |-> "TCP",       at |-> c.tcpHost, port |-> c.tcpPort, tls |-> c.sslEnabled],
                 [tr |-> "WebSocket", at |-> c.wsHost,  port |-> c.wsPort,  tls |-> c.sslEnabled],
                 [tr |-> "unix",      at |-> c.unixSocketFileName, port |-> "", tls |-> "false"],
                 [tr |-> "monitor",   at |-> c.monitorSocket, port |-> "", tls |-> "false"]}
=============================================================================
