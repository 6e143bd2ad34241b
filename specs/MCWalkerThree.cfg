SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  Kinds = {"pass", "prod", "merge", "fail", "save"}
  Reqs = {"auto"}
  Types = {"A"}
  Suffixes = {"", "x"}
INVARIANTS InOrderOnce EachGetsPrevious NeverPendingWhenCalled SkippedNeverCalled NothingAfterFailure Complete EarlyLate RejectedOnlyWhenMissing SavedIsApplied ProductsRegistered
CHECK_DEADLOCK FALSE
