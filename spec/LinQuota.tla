------------------------------ MODULE LinQuota ------------------------------
EXTENDS Lin
Q == INSTANCE Quota WITH Top <- 10, Slots <- {"x1", "x2", "x3", "x4"}, Amounts <- {}, s <- ls, act <- [op |-> "none"]
State0 == Q!Init0
Steps0(st, op, pc) == Q!LSteps0(st, op, pc)
End0(st, r) == Q!LEnd0(st, r)
=============================================================================
