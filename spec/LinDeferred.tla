---------------------------- MODULE LinDeferred ----------------------------
EXTENDS Lin
D == INSTANCE Deferred WITH Queues <- {}, Handles <- {}, Threads <- {}, OpNames <- {},
       s <- ls, act <- [op |-> "none"]
State0 == D!LState0
Steps0(st, op, pc) == D!LSteps0(st, op, pc)
End0(st, r) == D!LEnd0(st, r)
=============================================================================
