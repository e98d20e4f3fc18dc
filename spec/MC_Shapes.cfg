SPECIFICATION Spec
CONSTANT NStep = 60
INVARIANTS Nonnegative AreaGrows PerimeterGrows RadiusIsRatio Constant WidthIsRate SidesLong SlotAbove TableExact
CHECK_DEADLOCK FALSE
