SPECIFICATION Spec
CONSTANTS Versions = {"1", "2"}
 Platforms <- Two
INVARIANTS Total Consistent
PROPERTIES Network Fetched Failing
CHECK_DEADLOCK FALSE
