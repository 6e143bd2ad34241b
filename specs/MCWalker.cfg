SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Kinds = {"pass", "fail", "save"}
  Reqs = {"auto", "opt"}
  Types = {"A", "B"}
  Suffixes = {""}
INVARIANTS InOrderOnce EachGetsPrevious NeverPendingWhenCalled SkippedNeverCalled NothingAfterFailure Complete EarlyLate RejectedOnlyWhenMissing SavedIsApplied ProductsRegistered
CHECK_DEADLOCK FALSE
