--------------------------- MODULE MC_NetCopies ----------------------------
(* The nets on a heap: weights live in cells. Copying allocates a new cell;   *)
(* Shares is the broken design in which a copy keeps pointing at the cell of  *)
(* the original, Residue the one in which a copy continues with what the last *)
(* training left behind instead of what belongs to it.                        *)
EXTENDS NetCopies
CONSTANTS MaxOps, Given, Carry, Shares, Residue
VARIABLES nets, cell, heap, left, n, last
vars == <<nets, cell, heap, left, n, last>>
Nets == 1..3
Cells == 1..4
NoCell == 0
Init == /\ nets = [i \in Nets |-> IF i = 1 THEN [Absent EXCEPT !.alive = TRUE] ELSE Absent]
        /\ cell = [i \in Nets |-> IF i = 1 THEN 1 ELSE NoCell]
        /\ heap = [c \in Cells |-> <<>>] /\ left = <<>> /\ n = 0 /\ last = [op |-> "new", i |-> 1, j |-> 0, s |-> 0, warm |-> FALSE]
Free == CHOOSE c \in Cells : \A i \in Nets : cell[i] # c
Do(a) == /\ n < MaxOps /\ Possible(nets, a) /\ n' = n + 1 /\ last' = a
         /\ nets' = Step(Given, Carry, nets, a)
Train(i, s, w) == LET a == [op |-> "train", i |-> i, j |-> 0, s |-> s, warm |-> w] IN
    /\ Do(a)
    /\ LET m == [nets[i] EXCEPT !.v = IF Residue /\ left # <<>> THEN left ELSE heap[cell[i]]] IN
       /\ heap' = [heap EXCEPT ![cell[i]] = Trained(Given, Carry, m, s, w).v]
       /\ left' = Trained(Given, Carry, m, s, w).v
    /\ UNCHANGED cell
Copy(i, j, how) == LET a == [op |-> how, i |-> i, j |-> j, s |-> 0, warm |-> FALSE] IN
    /\ Do(a)
    /\ LET c == IF Shares THEN cell[i] ELSE IF cell[j] # NoCell /\ ~\E k \in Nets \ {j} : cell[k] = cell[j] THEN cell[j] ELSE Free
           was == [nets[i] EXCEPT !.v = heap[cell[i]]] IN
       /\ cell' = [cell EXCEPT ![j] = c]
       /\ heap' = [heap EXCEPT ![c] = IF how = "clone" THEN Cloned(Given, Carry, was).v ELSE was.v]
    /\ UNCHANGED left
Wake(i, s) == LET a == [op |-> "features", i |-> i, j |-> 0, s |-> s, warm |-> FALSE] IN
    /\ Do(a) /\ heap' = [heap EXCEPT ![cell[i]] = Woken(Given, Carry, [nets[i] EXCEPT !.v = heap[cell[i]]], s).v]
    /\ UNCHANGED <<cell, left>>
Set(i, c) == LET a == [op |-> "set", i |-> i, j |-> 0, s |-> c, warm |-> FALSE] IN Do(a) /\ UNCHANGED <<cell, heap, left>>
ATrain == \E i \in Nets, s \in {1, 2}, w \in BOOLEAN : Train(i, s, w)
ACopy == \E i, j \in Nets, how \in {"clone", "copy"} : Copy(i, j, how)
AWake == \E i \in Nets : Wake(i, 1)
ASet == \E i \in Nets, c \in {0, 1} : Set(i, c)
Next == ATrain \/ ACopy \/ AWake \/ ASet
Spec == Init /\ [][Next]_vars
\* what a net's cell holds is what its own history says
OwnHistory == \A i \in Nets : nets[i].alive => heap[cell[i]] = nets[i].v
Apart == \A i, j \in Nets : i # j /\ nets[i].alive /\ nets[j].alive => cell[i] # cell[j]
\* only the net that is trained, woken or made changes
OthersUntouched == [][\A k \in Nets : nets[k].alive /\ k # last'.i /\ k # last'.j => nets'[k] = nets[k] /\ heap'[cell'[k]] = heap[cell[k]]]_vars
\* a module made anew forgets
Anew == (Given = "class" /\ ~Carry /\ last.op = "train" /\ ~last.warm) => Len(nets[last.i].v) = 1
CopyIsEqual == last.op = "copy" => nets[last.i] = nets[last.j]
CloneIsUnfitted == last.op = "clone" => ~nets[last.j].ready
=============================================================================
