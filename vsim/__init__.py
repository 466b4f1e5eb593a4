"""Deterministic simulation of valori: simulated file system, scheduler, clock."""
