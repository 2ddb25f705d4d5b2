"""Damage to byte strings: what storage, transfer and foreign producers do to mesh files."""
import re

import numpy as np

NUM = re.compile(rb"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?")
SUBST = [b"-1", b"0", b"1", b"999999999", b"2147483648", b"9223372036854775808", b"1e400", b"nan", b"abc",
         b"", b"1.5", b"-7", b"0x10", b"3", b"1" * 40, b"\xc3\xa9", b"\xff", b"inf", b" ", b"\n"]
KINDS = ["trunc", "flip", "del", "dup", "ins", "token", "line-del", "line-dup", "line-swap", "field", "case",
         "crlf", "splice", "tokens", "line-cut", "zero", "ws"]


def mutate(rng, b, kind, other=b""):
    """(mutated bytes, short description)"""
    n = len(b)
    if n == 0:
        return b, "empty"
    if kind == "trunc":
        k = int(rng.integers(0, n))
        return b[:k], f"trunc {k}/{n}"
    if kind == "flip":
        a = bytearray(b)
        ks = rng.integers(0, n, int(rng.integers(1, 4)))
        for k in ks:
            a[k] ^= 1 << int(rng.integers(0, 8))
        return bytes(a), f"flip {ks.tolist()}"
    if kind == "zero":
        a = bytearray(b)
        k = int(rng.integers(0, n))
        m = int(rng.integers(1, 64))
        a[k:k + m] = bytes([int(rng.choice([0, 255, 32]))]) * len(a[k:k + m])
        return bytes(a), f"blank {k}+{m}"
    if kind == "del":
        k = int(rng.integers(0, n))
        m = int(rng.choice([1, 2, 4, 8, 37, max(1, n // 4)]))
        return b[:k] + b[k + m:], f"del {k}+{m}"
    if kind == "dup":
        k = int(rng.integers(0, n))
        m = int(rng.choice([1, 2, 4, 8, 37, max(1, n // 4)]))
        return b[:k + m] + b[k:], f"dup {k}+{m}"
    if kind == "ins":
        k = int(rng.integers(0, n))
        m = int(rng.choice([1, 3, 16]))
        g = [bytes(rng.integers(0, 256, m, dtype=np.uint8)), b"\n", b"\n\n", b"END", b"#", b"$", b"*",
             b"<", b"(", b")", b"{", b'"', b"\\"][int(rng.integers(0, 13))]
        return b[:k] + g + b[k:], f"ins {g!r} at {k}"
    if kind in ("token", "tokens"):
        t = list(NUM.finditer(b[:200000]))
        if not t:
            return mutate(rng, b, "flip")
        out, desc, last = b"", [], 0
        m = 1 if kind == "token" else 3
        # favour the head, where the counts are
        hi = len(t) if rng.random() < 0.5 else min(len(t), 25)
        for i in sorted(set(rng.integers(0, hi, m).tolist())):
            s = SUBST[int(rng.integers(0, len(SUBST)))]
            out += b[last:t[i].start()] + s
            last = t[i].end()
            desc.append(f"{t[i].group()!r}->{s!r}@{t[i].start()}")
        return out + b[last:], " ".join(desc)
    if kind.startswith("line"):
        ls = b.split(b"\n")
        i = int(rng.integers(0, min(len(ls), 40) if rng.random() < 0.5 else len(ls)))
        j = int(rng.integers(0, len(ls)))
        if kind == "line-del":
            m = int(rng.choice([1, 1, 2, 5]))
            return b"\n".join(ls[:i] + ls[i + m:]), f"line-del {i}+{m}"
        if kind == "line-dup":
            return b"\n".join(ls[:j] + [ls[i]] + ls[j:]), f"line {i} inserted at {j}"
        if kind == "line-cut":
            s = ls[i]
            k = int(rng.integers(0, len(s) + 1))
            ls[i] = s[:k]
            return b"\n".join(ls), f"line {i} cut at {k}"
        ls[i], ls[j] = ls[j], ls[i]
        return b"\n".join(ls), f"lines {i},{j} swapped"
    if kind == "field":
        a = bytearray(b)
        w = int(rng.choice([4, 8]))
        k = int(rng.integers(0, max(1, n - w)))
        if rng.random() < 0.5:
            k = min(k, int(rng.integers(0, 200)))
        v = int(rng.choice([-1, 0, 1, 2**31 - 1, -2**31, 5, 1000, 65536]))
        a[k:k + w] = v.to_bytes(w, ["little", "big"][int(rng.integers(0, 2))], signed=True)
        return bytes(a), f"field {w}@{k}={v}"
    if kind == "case":
        k = int(rng.integers(0, 2))
        return (b.upper() if k else b.lower()), "case"
    if kind == "crlf":
        return b.replace(b"\n", [b"\r\n", b"\r", b"", b"\n\n", b" "][int(rng.integers(0, 5))]), "newlines"
    if kind == "ws":
        return b.replace(b" ", [b"", b"\t", b"   ", b"\n"][int(rng.integers(0, 4))]), "blanks"
    if kind == "splice":
        i, j = int(rng.integers(0, n)), int(rng.integers(0, len(other) + 1))
        return b[:i] + other[j:], f"splice {i}|{j}"
    raise ValueError(kind)
