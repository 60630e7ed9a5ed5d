SPECIFICATION Spec
CONSTANTS
  Defaults <- TrDefaults
  Optional <- TrOptional
INVARIANT TypesKept
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
