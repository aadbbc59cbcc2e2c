"""Runtime monitors for the observable guarantees of gftools (see ../DESIGN.md)."""
