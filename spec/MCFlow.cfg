SPECIFICATION Spec
INVARIANTS WithinInventory NothingFromNothing AllKept DeadGone Throughput Configs
CONSTANTS Dur = 3
Big = FALSE
