"""Symbolic execution of arcticpy's own source (Python and Cython) over z3."""
