SPECIFICATION Spec
CONSTANTS Versions = {"1", "2"}
 Platforms <- One
INVARIANTS Total Consistent
PROPERTIES Network Fetched Failing
CHECK_DEADLOCK FALSE
