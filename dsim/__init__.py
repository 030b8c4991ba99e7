"""Deterministic simulation of toughio's environment (disk, crashes, clock, threads)."""
