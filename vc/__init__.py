"""Deductive verifier for the real datafold code (see DESIGN.md)."""
