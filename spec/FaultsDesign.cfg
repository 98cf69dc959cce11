SPECIFICATION DesignSpec
INVARIANT CompleteOrFailed
PROPERTIES OnlyForWant NoChangeOnFailure WorksAgain AlwaysReturns
CHECK_DEADLOCK FALSE
