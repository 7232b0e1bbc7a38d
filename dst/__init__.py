"""Deterministic simulation of PyConform jobs (see /verif/DESIGN.md)."""
