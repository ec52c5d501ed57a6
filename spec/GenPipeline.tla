---------------------------- MODULE GenPipeline ----------------------------
(* Enumerates the programs the conformance runs use: every admissible single  *)
(* step, and every admissible intermediate step followed by every final one.  *)
EXTENDS Pipeline, Json, IOUtils
CONSTANTS WithPairs
VARIABLES done
Sels == {"shared", "perdomain", "source", "target", "st"}
Adapters == {"AW", "AY", "AYW", "AD", "AS"}
Req == {"yes", "no", "unset"}
Admissible(s) ==
    /\ s.sel \in {"target", "st"} => ~s.mask
    /\ s.kind \in {"AD", "AS"} => s.dreq = "yes"
    /\ s.kind = "AS" => s.wreq = "yes" /\ s.sel \notin {"perdomain", "st"}
    /\ s.kind \in {"AW", "AY", "AYW"} => s.sel # "st"
    /\ s.kind = "E" => s.last
Steps == {s \in [sel : Sels, kind : {"T", "Tn", "E"} \cup Adapters, mask : BOOLEAN,
                 wreq : Req, dreq : Req, last : BOOLEAN] : Admissible(s)}
Singles == {<<s>> : s \in {x \in Steps : x.last}}
Inter == {s \in Steps : ~s.last}
Finals == {s \in Steps : s.last /\ s.kind \in {"E", "T"}}
Pairs == IF WithPairs
         THEN {<<x, y>> : x \in {s \in Inter : s.wreq # "unset" \/ s.dreq = "unset"},
                          y \in {s \in Finals : s.kind = "E" /\ (s.dreq # "unset" \/ s.wreq = "yes")}}
         ELSE {}
Out == [singles |-> SetToSeq(Singles), inter |-> SetToSeq(Inter), finals |-> SetToSeq(Finals),
        pairs |-> SetToSeq(Pairs)]
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.OUT, <<Out>>)
Spec == Init /\ [][Next]_done
=============================================================================
