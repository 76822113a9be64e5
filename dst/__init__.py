"""Deterministic simulation testing of Nagini (see /verif/DESIGN.md)."""
