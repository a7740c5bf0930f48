"""Deterministic simulation with fault injection for probnum."""
