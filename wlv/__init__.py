"""Property-based verification machinery for weatherlink-python (see /verif/DESIGN.md)."""
