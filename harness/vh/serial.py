"""The serializer of the compile tool (dill) on this interpreter.

The pinned dill is older than the interpreter: on PyPy it takes every function for a slot wrapper
and does not know all the fields of a code object.  Both only concern how dill writes functions;
these two handlers put that right so that the rest of it can be observed.
"""
import io
import marshal
import types

import dill


def _save_code(pickler, obj):
    pickler.save_reduce(marshal.loads, (marshal.dumps(obj),), obj=obj)


_P = dill.dill.Pickler
_P.dispatch[types.FunctionType] = dill.dill.save_function
_P.dispatch[types.CodeType] = _save_code


def dumps(ruleset):
    f = io.BytesIO()
    dill.dump(ruleset, f, dill.HIGHEST_PROTOCOL)
    return f.getvalue()


def loads(data):
    return dill.load(io.BytesIO(data))
