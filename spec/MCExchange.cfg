SPECIFICATION Spec
CONSTANTS
 Qs = {1, 2}
 Ps = {1, 2}
 Exs = {FALSE, TRUE}
 Caps = {3}
 Emit = TRUE
INVARIANT Feasible
INVARIANT Maximal
INVARIANT PrefRespected
CHECK_DEADLOCK FALSE
