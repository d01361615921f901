''' Solver-based symbolic execution of curver's real Python code. See DESIGN.md. '''
