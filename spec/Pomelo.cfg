SPECIFICATION Spec
INVARIANTS TypeOK StackPath TreesMatch IsDerivation AcceptOnlyDerivable ViablePrefix AsItself PrecedenceOK ExpectedOK CompressionOK WithinLimit Linear NothingLeft OrderOK
PROPERTIES DropKeepsStack Latched Independent
CHECK_DEADLOCK FALSE
