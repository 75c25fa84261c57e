SPECIFICATION Spec
INVARIANTS ReductionStored ClosureStored TotalOrder ParallelSequences Linearisation Neighbours FirstAndLast Tables Components MinDistance MinCost
CHECK_DEADLOCK FALSE
