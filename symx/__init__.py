"""symx: a small dynamic symbolic executor for the ajdmom sources, deciding with z3."""
