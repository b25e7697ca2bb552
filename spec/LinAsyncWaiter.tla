-------------------------- MODULE LinAsyncWaiter --------------------------
EXTENDS Lin
AW == INSTANCE AsyncWaiter WITH Clients <- {}, MaxQueue <- 0, Abandon <- FALSE, Spurious <- TRUE,
                                s <- ls, act <- [op |-> "none"]
State0 == AW!Init0
Steps0(st, op, pc) == AW!LSteps0(st, op, pc)
End0(st, r) == AW!LEnd0(st, r)
=============================================================================
