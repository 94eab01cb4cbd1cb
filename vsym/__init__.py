"""Symbolic execution of pmesh's real sources, decided by z3."""
