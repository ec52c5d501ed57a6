------------------------------ MODULE DeepData ------------------------------
(* The deep data set: a sequence of rows, each with its own features (x, an    *)
(* identifying integer), label (y, -1 when unlabelled), domain d (>= 0 source) *)
(* and, when the data set has weights (hw), weight w (0 otherwise).            *)
(* Rows are numbered within their own domain.  Also the two samplers that      *)
(* feed training, and what a fitted network answers.                           *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in DOMAIN s}
None == "none"
Row(x, y, d, w) == [x |-> x, y |-> y, d |-> d, w |-> w]
DS(rows, hw) == [rows |-> rows, hw |-> hw /\ rows # <<>>]
Empty == DS(<<>>, FALSE)
NoW(rows) == [i \in DOMAIN rows |-> [rows[i] EXCEPT !.w = 0]]
DefaultDomain == 0
NoLabel == -1
\* ---------------------------------------------------------------- building
\* y, w: sequences, empty when not given; d: a sequence, empty when not given, or one label for all (ds)
Built(xs, ys, d, ws) ==
    DS([i \in DOMAIN xs |-> Row(xs[i], IF ys = <<>> THEN NoLabel ELSE ys[i],
                                IF d.k = "none" THEN DefaultDomain ELSE IF d.k = "all" THEN d.v[1] ELSE d.v[i],
                                IF ws = <<>> THEN 0 ELSE ws[i])], ws # <<>>)
Consistent(xs, ys, d, ws) == /\ ys # <<>> => Len(ys) = Len(xs)
                             /\ (d.k = "each" /\ d.v # <<>>) => Len(d.v) = Len(xs)
                             /\ ws # <<>> => Len(ws) = Len(xs)
\* ---------------------------------------------------------------- operations
CanMerge(a, b, keep) == ~keep \/ a.rows = <<>> \/ b.rows = <<>> \/ a.hw = b.hw
Merge(a, b, keep) == IF keep THEN DS(a.rows \o b.rows, a.hw \/ b.hw) ELSE DS(NoW(a.rows \o b.rows), FALSE)
Holds(c, r) == CASE c.on = "side" -> IF c.v = 1 THEN r.d >= 0 ELSE r.d < 0
                 [] c.on = "domain" -> r.d = c.v
                 [] c.on = "labelled" -> r.y # NoLabel
                 [] c.on = "X" -> r.x > c.v
                 [] c.on = "y" -> r.y # NoLabel /\ r.y <= c.v
                 [] c.on = "sample_domain" -> r.d > c.v
                 [] c.on = "sample_weight" -> r.w > c.v
Select(a, c, rw) == LET Keep(r) == Holds(c, r)  s == SelectSeq(a.rows, Keep) IN IF rw THEN DS(s, a.hw) ELSE DS(NoW(s), FALSE)
AddWeights(a, ws) == DS([i \in DOMAIN a.rows |-> [a.rows[i] EXCEPT !.w = ws[i]]], TRUE)
DropWeights(a) == DS(NoW(a.rows), FALSE)
Domains(a) == {a.rows[i].d : i \in DOMAIN a.rows}
Within(rows, i) == Cardinality({j \in 1..i - 1 : rows[j].d = rows[i].d})
\* ---------------------------------------------------------------- the machine
Apply(reg, e) ==
    CASE e.op = "build" -> [reg EXCEPT ![e.r] = Built(e.xs, e.ys, e.dom, e.ws)]
      [] e.op = "copy" -> [reg EXCEPT ![e.r] = reg[e.a]]
      [] e.op = "merge" -> [reg EXCEPT ![e.r] = Merge(reg[e.a], reg[e.b], e.keep)]
      [] e.op = "mergein" -> [reg EXCEPT ![e.a] = Merge(reg[e.a], reg[e.b], e.keep)]
      [] e.op = "add_domain" -> [reg EXCEPT ![e.r] = Merge(reg[e.a], Built(e.xs, e.ys, e.dom, e.ws), FALSE)]
      [] e.op = "select" -> [reg EXCEPT ![e.r] = Select(reg[e.a], e.cond, e.keep)]
      [] e.op = "add_weights" -> [reg EXCEPT ![e.a] = AddWeights(reg[e.a], e.ws)]
      [] e.op = "remove_weights" -> [reg EXCEPT ![e.a] = DropWeights(reg[e.a])]
      [] OTHER -> reg
Refused(reg, e) ==
    CASE e.op \in {"build", "add_domain"} -> ~Consistent(e.xs, e.ys, e.dom, e.ws)
      [] e.op \in {"merge", "mergein"} -> ~CanMerge(reg[e.a], reg[e.b], e.keep)
      [] e.op = "add_weights" -> Len(e.ws) # Len(reg[e.a].rows)
      [] OTHER -> FALSE
\* ---------------------------------------------------------------- samplers
Side(d) == IF d >= 0 THEN 1 ELSE 2
Count(D, s) == Cardinality({i \in DOMAIN D : Side(D[i]) = s})
Whole(n, b) == n - (n % b)
PerSide(D, b, pol) == LET s == Whole(Count(D, 1), b)  t == Whole(Count(D, 2), b) IN
    CASE pol = "max" -> IF s > t THEN s ELSE t
      [] pol = "min" -> IF s < t THEN s ELSE t
      [] pol = "source" -> s
      [] pol = "target" -> t
OfSide(out, D, s) == SelectSeq(out, LAMBDA i : Side(D[i]) = s)
\* no row twice within one pass over the side
Passes(seq, n) == \A i, j \in DOMAIN seq : (i < j /\ (i - 1) \div n = (j - 1) \div n) => seq[i] # seq[j]
BalancedPrefix(out, D) ==
    /\ \A i \in DOMAIN out : out[i] \in DOMAIN D /\ Side(D[out[i]]) = (IF (i % 2) = 1 THEN 1 ELSE 2)
    /\ \A s \in {1, 2} : Passes(OfSide(out, D, s), Count(D, s))
Balanced(out, D, b, pol) == BalancedPrefix(out, D) /\ Len(out) = 2 * PerSide(D, b, pol)
OnlyPrefix(out, D, s) == /\ \A i \in DOMAIN out : out[i] \in DOMAIN D /\ Side(D[out[i]]) = s
                         /\ \A i, j \in DOMAIN out : i # j => out[i] # out[j]
Only(out, D, b, s) == OnlyPrefix(out, D, s) /\ Len(out) = Whole(Count(D, s), b)
\* ---------------------------------------------------------------- prediction
Answered(D, allow) == IF allow THEN [i \in DOMAIN D |-> i] ELSE SelectSeq([i \in DOMAIN D |-> i], LAMBDA i : D[i] < 0)
=============================================================================
