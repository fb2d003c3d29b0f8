"""Drives a built shared library through ctypes, in a process of its own: sodrive.py PLAN.json RESULT.json."""
import ctypes
import json
import sys

G = 256     # guard bytes


def guarded(n, fill):
    b = (ctypes.c_ubyte * (n + 2 * G))(*([0x5C] * G), *([fill] * n), *([0x5C] * G))
    return b, ctypes.addressof(b) + G


class Exact:
    """A block of the allocator's own, without room around it (for a library under AddressSanitizer)."""
    libc = ctypes.CDLL(None)
    libc.malloc.restype = ctypes.c_void_p
    libc.malloc.argtypes = [ctypes.c_size_t]

    def __init__(self, n, fill):
        self.n, self.p = n, self.libc.malloc(n)
        ctypes.memset(self.p, fill, n)

    def __bytes__(self):
        return b"\x5c" * G + ctypes.string_at(self.p, self.n) + b"\x5c" * G


def exact(n, fill):
    b = Exact(n, fill)
    return b, b.p


def intact(b, n):
    raw = bytes(b)
    return raw[:G] == b"\x5c" * G and raw[G + n:] == b"\x5c" * G


def main():
    plan = json.load(open(sys.argv[1]))
    lib = ctypes.CDLL(plan["lib"])
    lib.batch_loop.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
    lib.batch_loop.restype = None
    lib.save_weights.argtypes = [ctypes.c_char_p]
    lib.save_weights.restype = ctypes.c_int
    lib.copy_weights.restype = None
    new = exact if plan.get("exact") else guarded
    out = []
    for step in plan["steps"]:
        op, r = step["op"], {"op": step["op"]}
        if op == "batch":
            rows = bytes.fromhex(step["rows"])
            n, size = step["n"], step["n"] * plan["out_bytes"]
            ib, ip = new(len(rows), 0)
            ctypes.memmove(ip, rows, len(rows))
            ob, o = new(size, 0xEE)
            lib.batch_loop(o, ip, n)
            r["out"] = bytes(ob)[G:G + size].hex()
            r["around"] = intact(ob, size)
            r["input"] = intact(ib, len(rows)) and bytes(ib)[G:G + len(rows)] == rows
        elif op == "save":
            r["returned"] = lib.save_weights(step["path"].encode())
            with open(step["path"], "rb") as f:
                r["bytes"] = f.read().hex()
        elif op == "copy":
            bufs = []
            raw, k = bytes.fromhex(step["bytes"]), 0
            for n in step["sizes"]:
                b, a = new(n, 0)
                ctypes.memmove(a, raw[k:k + n], n)
                bufs.append((b, a, n, raw[k:k + n]))
                k += n
            lib.copy_weights(*[ctypes.c_void_p(a) for _, a, _, _ in bufs])
            r["given"] = all(intact(b, n) and bytes(b)[G:G + n] == v for b, _, n, v in bufs)
            for _, a, n, _ in bufs:     # the caller may reuse its buffers
                ctypes.memset(a, 0x7F, n)
        out.append(r)
        with open(sys.argv[2], "w") as f:
            json.dump(out, f)


if __name__ == "__main__":
    main()
