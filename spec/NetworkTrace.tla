---------------------------- MODULE NetworkTrace ----------------------------
(* Executions of real clients together must keep the rules of Network.        *)
EXTENDS Network, TLC, Json, CSV, IOUtils
CONSTANT Rules
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, s
Ev == Traces[tr].ev
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Start(Traces[tr].cfg)
Next == /\ l <= Len(Ev)
        /\ LET b == Broken(s, Ev[l]) \cap Rules
           IN IF b = {} THEN TRUE ELSE IOEnv.PROGRESS # "" /\ CSVWrite("%1$s", <<ToString(b)>>, IOEnv.PROGRESS \o ".rules") /\ FALSE
        /\ s' = Apply(s, Ev[l])
        /\ l' = l + 1 /\ UNCHANGED tr
View == <<tr, l>>
Report == /\ l > Len(Ev) => CSVWrite("%1$s", <<ToString(tr)>>, IOEnv.ACCEPT)
          /\ IOEnv.PROGRESS # "" => CSVWrite("%1$s", <<ToString(l)>>, IOEnv.PROGRESS)
=============================================================================
