"""Loads the z3 bindings of the tooling venv into the project's interpreter."""
import sys
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    sys.path.append(_P)
    try:
        import z3
    finally:
        sys.path.remove(_P)
