------------------------- MODULE LinExternalMemory -------------------------
EXTENDS Lin, Integers
EM == INSTANCE ExternalMemory WITH Isolates <- {"A"}, Threads <- {"t0", "t1", "t2", "t3"},
        Guards <- {"g1", "g2", "g3"}, Amounts <- {}, Deltas <- {}, Below <- {}, MaxDepth <- 9, MaxPend <- 0, OpNames <- {}, See <- {},
        s <- ls, act <- [op |-> "none"]
State0 == EM!Init0
Steps0(st, op, pc) == EM!LSteps0(st, op, pc)
End0(st, r) == EM!LEnd0(st, r)
=============================================================================
