SPECIFICATION Spec
CONSTANTS MaxSteps = 5 MaxObj = 5
CHECK_DEADLOCK FALSE
INVARIANTS CacheFresh Idempotent GenRight Ordered Truthful Registry FilesRight Separate CompositeWhole
PROPERTY Frame FailSafe
