"""Bounded exhaustive exploration (stateless model checking) of curvlinops."""
