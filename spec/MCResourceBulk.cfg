SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 Bulk = TRUE
 Keep = FALSE
 Emit = TRUE
INVARIANT MassConserved
INVARIANT QtyIsMass
INVARIANT StatesNamedOnce
INVARIANT ParentsFirst
INVARIANT LedgerDescribes
INVARIANT Inv
INVARIANT Held
CHECK_DEADLOCK FALSE
