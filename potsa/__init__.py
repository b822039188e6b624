"""potsa: static analyses specific to the POT (PythonOT) code base."""
