"""Run-time monitoring framework for onera/acetone (see ../DESIGN.md)."""
