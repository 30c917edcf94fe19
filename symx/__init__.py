"""symx: a small symbolic executor for the numerical Python (and Fortran) of magpie.

The package executes the *real* source of /repo over symbolic reals/integers,
explores paths by re-execution, and discharges obligations with Z3 (cvc5 as a
second opinion).  See /verif/DESIGN.md.
"""
