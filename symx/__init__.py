"""symx: symbolic execution of the real plaquette Python code with an SMT solver."""
