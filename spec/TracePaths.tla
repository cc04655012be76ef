------------------------------ MODULE TracePaths ------------------------------
EXTENDS TraceBase
P == INSTANCE Paths WITH Names <- {"a"}, MaxLen <- 1, path <- <<>>, home <- <<>>
Clauses(e) == LET p == P!Plain(e.path, <<>>) IN
  IF P!At(p) = {} THEN (IF e.status # "quit" THEN {"outside any dataset: refused"} ELSE {})
  ELSE IF ~P!Inside(p) THEN {}
  ELSE IF e.status # "ok" THEN {"found"}
  ELSE Violated([only_the_tree_changes |-> e.got = P!Move(p, e.tree),
                 and_back |-> e.back = p,
                 as_a_list |-> e.listed = e.got,
                 nothing_created |-> e.created = <<>>])
Init == TraceInit
Next == Consume(Clauses(Ev))
Spec == Init /\ [][Next]_tvars
=============================================================================
