SPECIFICATION Spec
CONSTANT N = 2
CONSTANT KINDS = {1, 7}
CONSTANT VALUES = {4}
INVARIANT EachOfAll
INVARIANT NothingOffTheList
INVARIANT NoPasture
INVARIANT IdleNothing
INVARIANT Local
INVARIANT MeanLies
INVARIANT Order
INVARIANT Joined
INVARIANT OnePlace
CHECK_DEADLOCK FALSE
