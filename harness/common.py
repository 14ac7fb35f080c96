"""Helpers for the adapters (run inside the worker, next to the real code)."""
import importlib


class Unsupported(Exception):
    """The harness was asked for an operation it does not implement (a machinery error)."""


IMPORT_ERROR = None
try:
    import ezodf
    import ezodf.wrapcache as _wrapcache
except Exception as e:     # a library that cannot be imported breaks everything
    ezodf = None
    IMPORT_ERROR = "%s: %s" % (type(e).__name__, e)

REJECTS = (IndexError, KeyError, ValueError, TypeError)


def reset_library():
    try:
        _wrapcache.clear()
    except Exception:
        pass
    try:
        ezodf.config.reset_table_expand_strategy()
    except Exception:
        pass


def esc(s):
    """text as plain ascii, one to one"""
    return s.encode("unicode_escape").decode("ascii") if isinstance(s, str) else "?" + repr(s)


def call(f):
    try:
        return f()
    except Exception as e:
        return "!" + type(e).__name__


class Adapter(object):
    ALWAYS_FRESH = False

    def __init__(self):
        pass

    def fingerprint(self):
        return None

    def classify(self, op, e):
        if isinstance(e, REJECTS):
            return "rej"
        return "crash:" + type(e).__name__

    def apply(self, op):
        return getattr(self, "op_" + op["a"])(op)

    def project(self):
        return {}

    def close(self):
        pass
