SPECIFICATION Spec
INVARIANTS Confluent Faithful Reasons HygieneOK
CHECK_DEADLOCK FALSE
