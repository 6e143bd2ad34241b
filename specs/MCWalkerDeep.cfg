SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Kinds = {"pass", "prod", "fail", "merge", "save"}
  Reqs = {"auto", "opt", "file"}
  Types = {"A", "B"}
  Suffixes = {"", "x"}
INVARIANTS InOrderOnce EachGetsPrevious NeverPendingWhenCalled SkippedNeverCalled NothingAfterFailure Complete EarlyLate RejectedOnlyWhenMissing SavedIsApplied ProductsRegistered
CHECK_DEADLOCK FALSE
