"""Property-based verification machinery for fastkml (see /verif/DESIGN.md)."""
