------------------------------ MODULE MCSetIter ----------------------------
(* The lazy set operations as algorithms over two enumerations: each call of  *)
(* next advances one of two cursors.  Checked for every pair of sets and       *)
(* every order of enumeration: nothing is produced twice, exactly the set     *)
(* operation is produced, and the promised bounds hold after every step.      *)
EXTENDS FrozenOps
CONSTANT E                   \* elements 1..E
VARIABLES op, a, b, i, j, out, end
vars == <<op, a, b, i, j, out, end>>
Orders == UNION {{q \in [1..n -> 1..E] : AllDistinct(q)} : n \in 0..E}
A == Rng(a)
B == Rng(b)
Init == /\ op \in {"union", "inter", "diff", "sym"}
        (* renaming elements changes nothing: the first set is enumerated in order *)
        /\ a \in {q \in Orders : \A x \in 1..(Len(q) - 1) : q[x] < q[x + 1]} /\ b \in Orders
        /\ i = 1 /\ j = 1 /\ out = <<>> /\ end = FALSE
(* from position p of s, the first element for which keep holds: <<element, next position>> *)
RECURSIVE Skip(_, _, _)
Skip(s, p, T) == IF p > Len(s) THEN <<NONE, p>> ELSE IF s[p] \in T THEN <<s[p], p + 1>> ELSE Skip(s, p + 1, T)
All == 1..E
Left(T)  == LET r == Skip(a, i, T) IN IF r[1] = NONE THEN [x |-> NONE, i |-> r[2], j |-> j] ELSE [x |-> r[1], i |-> r[2], j |-> j]
Right(T) == LET r == Skip(b, j, T) IN IF r[1] = NONE THEN [x |-> NONE, i |-> i, j |-> r[2]] ELSE [x |-> r[1], i |-> i, j |-> r[2]]
Then(l, r) == IF l.x # NONE THEN l ELSE r
Pull == CASE op = "union" -> IF Len(a) > Len(b) THEN Then(Left(All), Right(All \ A)) ELSE Then(Right(All), Left(All \ B))
          [] op = "inter" -> IF Len(a) < Len(b) THEN Left(B) ELSE Right(A)
          [] op = "diff"  -> Left(All \ B)
          [] op = "sym"   -> Then(Left(All \ B), Right(All \ A))
NextItem == /\ ~end
            /\ LET p == Pull
               IN IF p.x = NONE THEN end' = TRUE /\ UNCHANGED <<i, j, out>>
                  ELSE i' = p.i /\ j' = p.j /\ out' = Append(out, p.x) /\ end' = end
            /\ UNCHANGED <<op, a, b>>
Next == NextItem
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* size hints: <<lower, upper>>                                               *)
L1 == Len(a) - i + 1
L2 == Len(b) - j + 1
Hint == CASE op = "union" -> <<IF Len(a) > Len(b) THEN L1 ELSE L2, L1 + L2>>
          [] op = "inter" -> <<0, Min({Len(a), Len(b)})>>
          [] op = "diff"  -> <<0, L1>>
          [] op = "sym"   -> <<0, L1 + L2>>
Want == SetOp(op, A, B)
NoRepeats == AllDistinct(out) /\ Rng(out) \subseteq Want
Complete  == end => Rng(out) = Want
Bounds    == LET left == Cardinality(Want) - Len(out) IN Hint[1] <= left /\ left <= Hint[2]
Terminates == <>end
=============================================================================
