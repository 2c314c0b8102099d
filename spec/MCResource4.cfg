SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 Bulk = FALSE
 Keep = FALSE
 Emit = TRUE
INVARIANT MassConserved
INVARIANT QtyIsMass
INVARIANT StatesNamedOnce
INVARIANT ParentsFirst
INVARIANT LedgerDescribes
INVARIANT Inv
INVARIANT Held
CHECK_DEADLOCK FALSE
