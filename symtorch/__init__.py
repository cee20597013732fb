"""Symbolic execution of PyTorch programs with an SMT back end (see ../DESIGN.md)."""
