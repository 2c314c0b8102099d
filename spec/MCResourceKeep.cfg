SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 Bulk = FALSE
 Keep = TRUE
 Emit = TRUE
INVARIANT MassConserved
INVARIANT QtyIsMass
INVARIANT StatesNamedOnce
INVARIANT ParentsFirst
INVARIANT LedgerDescribes
INVARIANT Inv
INVARIANT Held
CHECK_DEADLOCK FALSE
