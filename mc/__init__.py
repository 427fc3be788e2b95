"""Bounded exhaustive exploration of the real phasor code (explicit-state / stateless model checking)."""
