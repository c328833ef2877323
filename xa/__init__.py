"""Abstract interpreter for the Python subset used by ndg_xacml (static analysis)."""
