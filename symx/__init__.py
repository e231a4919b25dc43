"""symx: a small symbolic executor for CPython code.

The real functions of /repo run unmodified on proxy objects whose data are z3
terms; every branch on symbolic data is decided by z3 (both sides are followed
when both are satisfiable) and every assertion is a z3 validity query under the
path condition.  See DESIGN.md.
"""
