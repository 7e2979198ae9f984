"""JavaScript: the page scripts of the plots are run symbolically by an
interpreter of their syntax tree (interp.py), and concretely by node."""
from .run import run_js, Num, Rope, JSThrow, tokens, plain      # noqa: F401
