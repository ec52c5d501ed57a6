---------------------------- MODULE GenNetCopies ----------------------------
(* Every history of MaxOps operations over an original net and one copy in     *)
(* which something is copied and something is trained or asked afterwards.     *)
EXTENDS NetCopies, Json, IOUtils, TLC
CONSTANTS MaxOps
VARIABLES nets, hist
Op(o, i, j, s, w) == [op |-> o, i |-> i, j |-> j, s |-> s, warm |-> w]
Ops == {Op("train", i, 0, s, FALSE) : i \in {1, 2}, s \in {1, 2}} \cup {Op("train", i, 0, 1, TRUE) : i \in {1, 2}}
       \cup {Op(how, 1, 2, 0, FALSE) : how \in {"clone", "copy", "pickle"}} \cup {Op("copy", 2, 1, 0, FALSE)}
       \cup {Op("set", 1, 0, 1, FALSE)}
       \cup {Op(q, i, 0, 1, FALSE) : q \in {"proba", "features"}, i \in {1, 2}}
       \cup {Op(q, 1, 0, 1, FALSE) : q \in {"score", "infer"}}
First == Op("new", 1, 0, 0, FALSE)
Start == [i \in 1..3 |-> Absent]
Init == nets = Step("instance", FALSE, Start, First) /\ hist = <<First>>
Next == \E a \in Ops : /\ Len(hist) < MaxOps /\ Possible(nets, a) /\ hist[Len(hist)] # a
                       /\ nets' = Step("instance", FALSE, nets, a) /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_<<nets, hist>>
Copies(a) == a.op \in {"clone", "copy", "pickle"}
Complete == /\ Len(hist) = MaxOps /\ ~Copies(hist[MaxOps]) /\ hist[MaxOps].op # "set"
            /\ \E k \in 2..(MaxOps - 1) : Copies(hist[k]) /\ \E m \in 2..MaxOps : hist[m].op = "train"
Put(r) == Serialize(ToJson(r) \o "\n", IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == Complete => Put(hist)
=============================================================================
