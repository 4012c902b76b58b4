"""bpv: property-based verification of bloscpack (see /verif/DESIGN.md)."""
