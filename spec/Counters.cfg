SPECIFICATION Spec
INVARIANTS Distinct Covered Tight Printed
CHECK_DEADLOCK FALSE
