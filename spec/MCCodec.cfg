SPECIFICATION Spec
CONSTANTS
  Shapes <- ShapesMC
  Emit = FALSE
  Damage <- DamageV
INVARIANTS RoundTrip PrefixRejected DamageIsTotal
CHECK_DEADLOCK FALSE
