SPECIFICATION Spec
CONSTANTS
 Qs = {1}
 Ps = {1, 2}
 Exs = {FALSE, TRUE}
 Caps = {3}
 Emit = FALSE
CHECK_DEADLOCK FALSE
PROPERTY Terminates
