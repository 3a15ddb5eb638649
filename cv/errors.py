class Abort(Exception):
    """ends the current case after a recorded violation"""


class Skip(Exception):
    """the generated case does not meet the preconditions of the property"""
