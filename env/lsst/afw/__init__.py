"""stand-in, see /verif/DESIGN.md"""
