"""Parse actions attached to the pyparsing grammar can be handed to the interpreter (HOOK); otherwise they run as they are."""
import pyparsing

HOOK = [None]
_trim = pyparsing._trim_arity


def trim_arity(func, maxargs=2):
    w = _trim(func, maxargs)
    code = getattr(func, '__code__', None)

    def wrapper(*a):
        h = HOOK[0]
        if h is None or code is None:
            return w(*a)
        n = code.co_argcount
        return h(func, a[3 - n:] if n <= 3 else a)
    return wrapper


def install():
    """before the grammar of the repository is built"""
    pyparsing._trim_arity = trim_arity
