"""Static analysis of sangfroid.

Nothing in this package imports or runs the code it analyses.  The source
is parsed with `ast` and interpreted over an abstract domain (see interp.py).
"""
