SPECIFICATION Spec
CONSTANTS
  NRef = 2
  MaxFaults = 2
  BuildSet <- AllBuilds
  CpuSet <- SomeCpus
INVARIANT Verdict
INVARIANT Complete
INVARIANT Rejects
INVARIANT OnlySupported
CHECK_DEADLOCK FALSE
