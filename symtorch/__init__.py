"""symtorch: symbolic execution of real PyTorch code, decided by z3."""
