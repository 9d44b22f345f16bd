"""what vlib/faults.py runs besides the library's own functions"""

import importlib
import json


def get(name):
    mod, attr = name.split(":")
    return getattr(importlib.import_module(mod), attr)


def plain(v):
    """results as JSON"""
    if isinstance(v, dict):
        return [[str(k), plain(x)] for k, x in sorted(v.items(), key=str)]
    if isinstance(v, (set, frozenset)):
        return sorted(map(str, v))
    if isinstance(v, (str, int, type(None))):
        return v
    if hasattr(v, "pretty_descriptor"):
        return v.pretty_descriptor()
    try:
        return [plain(x) for x in v]
    except TypeError:
        return "?"


def again(cls, args, calls):
    """calls methods of an object, which is made again if that fails"""
    out = []
    try:
        obj = get(cls)(*args)
        out.append("made")
    except Exception as e:
        obj = get(cls)(*args)
        out.append({"raised": type(e).__name__})
    for name, more in calls:
        try:
            # what is made by going through it counts as well
            out.append(plain(getattr(obj, name)(*more)))
        except Exception as e:
            out.append({"raised": type(e).__name__})
    if hasattr(obj, "close"):
        obj.close()
    return json.dumps(out)
