"""Bounded exhaustive exploration of the real e3x code (see DESIGN.md)."""
