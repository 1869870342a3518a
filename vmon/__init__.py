"""Runtime monitors for cfdtools (see /verif/DESIGN.md)."""
