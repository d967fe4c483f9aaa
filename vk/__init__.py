"""Runtime-monitoring framework for eoxmagmod (see /verif/DESIGN.md)."""
