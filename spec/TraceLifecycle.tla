--------------------------- MODULE TraceLifecycle ---------------------------
(* Replays recorded histories on the machine of Lifecycle: after every call   *)
(* the parameters every object reports, the answers fitted objects give, and  *)
(* the caller's arrays and nested estimators must be what the machine says.   *)
EXTENDS Lifecycle, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen, st, cur
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
OpOf(e) == Op(e.op, e.o, e.o2, e.p, e.d)
\* e.pids[o]: parameter settings whose report equals that of object o
ParamsOk(s, e) == \A o \in {1, 2} : Exists(s, o) => s[o].par \in Rng(e.pids[o])
\* e.answers: for each queried object the (setting, data) pairs of fresh objects answering alike
AnswersOk(s, e, objs) == \A k \in 1..Len(e.answers) :
    LET a == e.answers[k] IN a.o \in objs /\ Judged(s, a.o) => s[a.o].fit \in Rng(a.match)
Queried(s, e) == \A o \in {1, 2} : Judged(s, o) => \E k \in 1..Len(e.answers) : e.answers[k].o = o
Touched(e) == IF e.o2 = 0 THEN {e.o} ELSE {e.o2}
OpFails(e) ==
    IF ~Enabled_(st, OpOf(e)) THEN {"harness_history_not_admissible"}
    ELSE LET s == Apply(st, OpOf(e)) IN
      \* where a fresh object refuses to be fitted, this one has to as well
      (IF e.op = "fit" /\ s[e.o].fit \in Rng(e.refused) THEN (IF e.err = "" THEN {"fitted_where_a_fresh_object_refuses"} ELSE {})
       ELSE IF e.err # "" /\ e.op # "badfit" THEN {"raised_" \o e.err \o "_in_" \o e.op}
       ELSE
        (IF cur.prop = "C05" THEN F({<<"caller_data_modified", ~e.caller>>, <<"nested_estimator_modified", ~e.nested>>}) ELSE {})
        \cup (IF cur.prop = "C28" THEN
             F({<<"reported_parameters_after_" \o e.op, ParamsOk(s, e)>>,
                <<"constructor_value_not_reported", e.reported>>,
                <<"clone_is_fitted", e.op # "clone" \/ ~e.fitted[e.o2]>>,
                <<"answers_after_" \o e.op, AnswersOk(s, e, Touched(e))>>}) ELSE {})
        \cup (IF cur.prop = "C29" THEN
             F({<<"not_as_fitted_afresh", e.op \in {"fit", "search"} => AnswersOk(s, e, Touched(e))>>,
                <<"answers_changed_by_" \o e.op, AnswersOk(s, e, {1, 2} \ Touched(e))>>,
                <<"score_changed_answers", e.op \in {"score", "copy"} => AnswersOk(s, e, {1, 2})>>,
                <<"harness_not_queried", Queried(s, e)>>}) ELSE {}))
CallFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    F({<<"caller_data_modified", ~e.caller>>, <<"nested_estimator_modified", ~e.nested>>, <<"second_call_differs", e.same>>})
Failing(e) == CASE e.ev = "begin" -> {}
                [] e.ev = "op" -> OpFails(e)
                [] e.ev = "call" -> CallFails(e)
                [] e.ev = "factory" -> IF e.err # "" THEN {"raised_" \o e.err} ELSE F({<<"argument_not_passed_on", e.reported>>})
                [] OTHER -> {"unknown_event"}
Tags(e) == CASE e.ev = "begin" -> {}
             [] e.ev = "op" -> {e.op} \cup (IF e.op = "fit" /\ Fitted(st, e.o) THEN {"refit"} ELSE {})
                                \cup (IF \E k \in 1..Len(e.answers) : Cardinality(Rng(e.answers[k].match)) = 1 THEN {"answer_identifies_fit"} ELSE {})
             [] OTHER -> {e.ev}
Init == l = 1 /\ bad = <<>> /\ seen = {} /\ st = [o \in {1, 2} |-> Absent] /\ cur = [prop |-> ""]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
             /\ IF e.ev = "begin" THEN st' = [o \in {1, 2} |-> Absent] /\ cur' = [prop |-> e.prop]
                ELSE IF e.ev = "op" THEN cur' = cur /\ st' = (IF Enabled_(st, OpOf(e)) THEN Apply(st, OpOf(e)) ELSE st)
                ELSE UNCHANGED <<st, cur>>
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen, st, cur>>
=============================================================================
