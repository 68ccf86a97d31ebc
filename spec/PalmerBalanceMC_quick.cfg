SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Amounts = {0, 7, 30, 100, 240}  Capacities = {60, 100, 170, 500}
VIEW View
INVARIANT Layers
PROPERTY Steps
