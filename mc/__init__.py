"""Bounded exhaustive exploration of the real ChainConsumer code (see DESIGN.md)."""
