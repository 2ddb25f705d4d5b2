"""Deep value snapshots of meshes and their differences (monitor of hooked state)."""
import numpy as np


def snap(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objarr", o.shape, tuple(snap(x, depth + 1) for x in o.ravel()))
        return ("arr", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ("dict", type(o).__name__, tuple((snap(k), snap(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x, depth + 1) for x in o))
    if isinstance(o, (str, bytes, int, float, bool, type(None), complex, np.generic)):
        return ("v", type(o).__name__, repr(o))
    if hasattr(o, "__dict__"):
        return ("obj", type(o).__name__, tuple((k, snap(v, depth + 1)) for k, v in sorted(vars(o).items())
                                                if not k.startswith("_")))
    return ("other", type(o).__name__, repr(o))


def diff(a, b, path="mesh"):
    """First differences between two snapshots, as text."""
    if a == b:
        return []
    if a[0] != b[0] or len(a) != len(b):
        return [f"{path}: {a[0]} became {b[0]}"]
    if a[0] == "arr":
        if a[1] != b[1]:
            return [f"{path}: dtype {a[1]} became {b[1]}"]
        if a[2] != b[2]:
            return [f"{path}: shape {a[2]} became {b[2]}"]
        return [f"{path}: values changed"]
    if a[0] == "dict":
        ka = [k for k, _ in a[2]]
        kb = [k for k, _ in b[2]]
        if ka != kb:
            return [f"{path}: keys {[k[-1] for k in ka]} became {[k[-1] for k in kb]}"]
        out = []
        for (k, x), (_, y) in zip(a[2], b[2]):
            out += diff(x, y, f"{path}[{k[-1]}]")
        return out
    if a[0] == "obj":
        if [k for k, _ in a[2]] != [k for k, _ in b[2]]:
            return [f"{path}: attributes changed"]
        out = []
        for (k, x), (_, y) in zip(a[2], b[2]):
            out += diff(x, y, f"{path}.{k}")
        return out
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return [f"{path}: length {len(a[1])} became {len(b[1])}"]
        out = []
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            out += diff(x, y, f"{path}[{i}]")
        return out
    return [f"{path}: {a[-1]} became {b[-1]}"]
