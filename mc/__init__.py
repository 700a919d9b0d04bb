"""Bounded exhaustive model checking of the reor package."""
