SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Amounts = {0, 3, 7, 15, 30, 55, 100, 170, 240, 700}  Capacities = {50, 60, 100, 101, 170, 225, 500, 930}
VIEW View
INVARIANT Layers
PROPERTY Steps
