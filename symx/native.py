"""What harnesses need to know about values, outside of the rewritten code."""


def plain(x):
    """A value of Python itself, not one of the solver's."""
    return type(x) in (str, bytes, bytearray, int, float, bool, type(None))
