"""Solver-based checking of dbrattli/Expression: see /verif/DESIGN.md."""
