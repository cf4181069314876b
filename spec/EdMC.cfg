INIT Init
NEXT Next
VIEW View
INVARIANTS WellFormed Laws
CHECK_DEADLOCK FALSE
