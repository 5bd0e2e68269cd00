"""Solver-based symbolic execution of the real modred sources."""
