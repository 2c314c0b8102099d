SPECIFICATION Spec
INVARIANTS WithinInventory NothingFromNothing AllKept DeadGone Throughput Configs
CONSTANTS Dur = 4
Big = TRUE
