"""symtorch: solver-based checking of the real torchrir code.  See DESIGN.md."""
