INIT Init
NEXT Next
INVARIANTS InOrder ExactText Trimmed KindByColon EofLast QuickFlags QuickReadsAhead QuickConsumes
CHECK_DEADLOCK FALSE
