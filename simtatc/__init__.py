"""Deterministic simulation of the TAT-C library with fault injection."""
