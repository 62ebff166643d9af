SPECIFICATION Spec
CONSTANTS
  NRef = 2
  MaxFaults = 1
  BuildSet <- SomeBuilds
  CpuSet <- SomeCpus
INVARIANT Verdict
INVARIANT Complete
INVARIANT Rejects
INVARIANT OnlySupported
CHECK_DEADLOCK FALSE
