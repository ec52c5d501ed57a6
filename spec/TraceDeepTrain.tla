--------------------------- MODULE TraceDeepTrain ---------------------------
EXTENDS DeepTrain, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, seen
F(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
\* ---------------------------------------------------------------- C25: one batch
\* e.D, e.y, e.w: by row of the data set; e.batch: rows in the batch; what the losses got is by row too
StepFails(e) ==
    LET D == Pick(e.D, e.batch)
        src == Pick(e.batch, Rows(D, TRUE))  tgt == Pick(e.batch, Rows(D, FALSE))
        base == Pick(e.batch, BaseRows(D, e.ontarget))
        g == e.got
        Opt(has, a, b) == IF has THEN a = b ELSE a = <<>> IN
    IF e.err # "" THEN {"raised_" \o e.err} ELSE F({
        <<"base_loss_rows", g.base = base>>,
        <<"base_loss_labels", g.basey = Pick(e.y, base)>>,
        <<"adapt_source_labels", g.ys = Pick(e.y, src)>>,
        <<"adapt_source_outputs", g.ps = src>>, <<"adapt_target_outputs", g.pt = tgt>>,
        <<"adapt_source_domain_outputs", Opt(e.hasdom, g.ds, src)>>, <<"adapt_target_domain_outputs", Opt(e.hasdom, g.dt, tgt)>>,
        <<"adapt_source_features", Opt(e.hasfeat, g.fs, src)>>, <<"adapt_target_features", Opt(e.hasfeat, g.ft, tgt)>>,
        <<"adapt_source_numbers", Opt(e.hasidx, g.is, Pick(e.num, src))>>, <<"adapt_target_numbers", Opt(e.hasidx, g.it, Pick(e.num, tgt))>>,
        <<"nothing_else_passed", g.extra = 0>>,
        \* the recording losses weigh outputs, domain outputs and features of each side by known numbers
        <<"gradients_of_outputs", e.grad.p = <<>> \/ \A i \in DOMAIN e.D :
            e.grad.p[i] = e.reg * (IF e.D[i] >= 0 THEN 1 ELSE 2) + (IF ~e.vec /\ i \in Rng(base) THEN 64 ELSE 0)>>,
        <<"gradients_of_domain_outputs", e.grad.d = <<>> \/ \A i \in DOMAIN e.D : e.grad.d[i] = e.reg * (IF e.D[i] >= 0 THEN 4 ELSE 8)>>,
        <<"gradients_of_features", e.grad.f = <<>> \/ \A i \in DOMAIN e.D : e.grad.f[i] = e.reg * (IF e.D[i] >= 0 THEN 16 ELSE 32)>>,
        <<"total", IF e.vec THEN LET n == Len(base)  w == IF e.w = <<>> THEN [i \in DOMAIN e.D |-> 1] ELSE e.w IN
                        n = 0 \/ Near(e.total * n, 1000 * Total(base, Pick(w, base), e.reg, e.adapt), n)
                   ELSE e.total = 1000 * (e.base + e.reg * e.adapt)>>})
\* nets trained on one side only
BaselineFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE F({
    <<"trained_on_the_other_side", \A k \in DOMAIN e.batches : \A i \in Rng(e.batches[k].batch) : (e.D[i] >= 0) = (e.side = "source")>>,
    <<"base_loss_rows", \A k \in DOMAIN e.batches : e.batches[k].base = e.batches[k].batch>>,
    <<"base_loss_labels", \A k \in DOMAIN e.batches : e.batches[k].basey = Pick(e.y, e.batches[k].base)>>,
    <<"total", \A k \in DOMAIN e.total : e.total[k] = 1000 * e.value>>,
    <<"harness_no_training", Len(e.batches) > 0 /\ Len(e.total) = Len(e.batches)>>})
\* ---------------------------------------------------------------- two runs
PairFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE F({
    <<(IF e.what = "leak" THEN "losses_depend_on_target_labels" ELSE "losses_differ_between_equal_fits"), e.la = e.lb>>,
    <<(IF e.what = "leak" THEN "parameters_depend_on_target_labels" ELSE "parameters_differ_between_equal_fits"), e.pa = e.pb>>,
    <<"predictions_differ", e.qa = e.qb>>,
    <<"global_seed_changed", e.seeds>>, <<"callers_arrays_or_lists_changed", ~e.caller>>,
    <<"harness_no_training", Len(e.la) > 0>>})
\* ---------------------------------------------------------------- C27
EpochFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE F({
    <<"epoch_counter", \A k \in DOMAIN e.seen : e.seen[k][2] = Counter(e.seen[k][1])>>,
    <<"number_of_epochs", {e.seen[k][1] : k \in DOMAIN e.seen} = 1..e.epochs>>,
    <<"neighbour_schedule", \A k \in DOMAIN e.nap : Near(e.nap[k], Nap(e.seen[k][1], e.max, 10000), 1)>>,
    <<"adversarial_schedule", /\ \A k \in DOMAIN e.adv : e.adv[k] > 0 /\ e.adv[k] <= 10000
                              /\ \A j, k \in DOMAIN e.adv : (e.seen[j][1] = e.seen[k][1] => e.adv[j] = e.adv[k])
                                                         /\ ((e.seen[j][1] < e.seen[k][1] /\ e.seen[k][1] <= e.max) => e.adv[j] <= e.adv[k])>>,
    <<"schedule_of_earlier_fit", \A k \in DOMAIN e.adv : \A p \in Rng(e.past) : (p[1] = e.seen[k][1] /\ p[2] = e.max) => p[3] = e.adv[k]>>,
    <<"callback_list_changed", ~e.caller>>})
\* e.batches: [ids: distinct target rows seen, new: what the bank should move them towards,
\*             before, after: the bank; train: a training batch]
RowNear(a, b, tol) == \A i \in DOMAIN b : Near(a[i], b[i], tol)
Moves(q, k, j, e) == RowNear([i \in DOMAIN q.after[j] |-> e.den * q.after[j][i]],
                             [i \in DOMAIN q.after[j] |-> Moved(q.before[j][i], q.new[k][i], e.m, e.den)], 3 * e.den)
Changed(q) == {j \in DOMAIN q.after : ~RowNear(q.after[j], q.before[j], 0)}
Idx(q, s) == CHOOSE k \in DOMAIN q.ids : q.ids[k] = s
BankFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE
    LET T == {e.batches[b] : b \in {x \in DOMAIN e.batches : e.batches[x].train}}
        V == {e.batches[b] : b \in {x \in DOMAIN e.batches : ~e.batches[x].train}}
        S == UNION {Rng(q.ids) : q \in T}
        J == 1..e.ntarget
        Own == [s \in S |-> {j \in J : \A q \in T : s \in Rng(q.ids) => Moves(q, Idx(q, s), j, e)}]
        OwnSet == UNION {Own[s] : s \in S} IN
    F({<<"bank_size", e.size = e.ntarget>>,
       <<"initial_features", \A j \in DOMAIN e.first : Near(Sum([i \in 1..e.nf |-> (e.first[j][i] \div 10) * (e.first[j][i] \div 10)]), 1000000, 20000)>>,
       <<"initial_outputs", \A j \in DOMAIN e.first : \A i \in e.nf + 1..Len(e.first[j]) : Near(e.first[j][i] * (Len(e.first[j]) - e.nf), 10000, 3)>>,
       <<"harness_nothing_recorded", T # {}>>,
       <<"validation_batch_changed_bank", \A q \in V : Changed(q) = {}>>})
    \cup (IF e.size # e.ntarget THEN {} ELSE F({
       <<"entry_of_sample_not_moved", \A s \in S : Own[s] # {}>>,
       <<"samples_share_entries", Cardinality(OwnSet) >= Cardinality(S) /\ \A s, t \in S : s # t => Own[s] \cap Own[t] = {} \/ Cardinality(Own[s] \cup Own[t]) >= 2>>,
       <<"other_entries_moved", \A q \in T : Changed(q) \subseteq UNION {Own[s] : s \in Rng(q.ids)}>>}))
\* class centres handed to the target clustering: sum of the unit features of each class
CentroidFails(e) == IF e.err # "" THEN {"raised_" \o e.err} ELSE F({
    <<"number_of_centres", Len(e.init) = e.ncl>>,
    <<"centre_of_class", \A c \in DOMAIN e.init : \A i \in DOMAIN e.init[c] :
        Near(e.init[c][i], Sum([k \in DOMAIN e.fs |-> IF e.y[k] = c - 1 THEN e.fs[k][i] ELSE 0]), 2 * Len(e.fs))>>,
    <<"target_not_with_nearest_centre", \A k \in DOMAIN e.lab : \A c \in DOMAIN e.sim[k] : e.sim[k][e.lab[k] + 1] >= e.sim[k][c] - 2>>})
Failing(e) == CASE e.ev = "step" -> StepFails(e)
                [] e.ev = "pair" -> PairFails(e)
                [] e.ev = "baseline" -> BaselineFails(e)
                [] e.ev = "epochs" -> EpochFails(e)
                [] e.ev = "bank" -> BankFails(e)
                [] e.ev = "centroids" -> CentroidFails(e)
                [] OTHER -> {"unknown_event"}
Tags(e) == CASE e.ev = "step" -> {IF e.ontarget THEN "train_on_target" ELSE "train_on_source", IF e.vec THEN "per_sample" ELSE "scalar"}
                    \cup (IF e.w # <<>> THEN {"weights"} ELSE {}) \cup (IF e.grad.p # <<>> THEN {"gradients"} ELSE {}) \cup (IF \E i \in Rng(e.batch) : e.D[i] = 0 THEN {"domain_zero"} ELSE {})
             [] e.ev = "baseline" -> {"baseline_" \o e.side}
             [] e.ev = "pair" -> {e.what, e.net, e.layout}
             [] e.ev = "epochs" -> {"epochs"} \cup (IF e.past # <<>> THEN {"refit_counter"} ELSE {})
             [] e.ev = "bank" -> {"bank"} \cup (IF \E b \in DOMAIN e.batches : ~e.batches[b].train THEN {"validation"} ELSE {})
             [] OTHER -> {e.ev}
Init == l = 1 /\ bad = <<>> /\ seen = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  f == Failing(e) IN
             /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])
             /\ seen' = seen \cup Tags(e)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => JsonSerialize(IOEnv.OUT, [n |-> l, bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<l, bad, seen>>
=============================================================================
