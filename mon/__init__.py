"""Runtime-monitoring machinery for folx (see DESIGN.md)."""
