"""Run the operations of a JSON file against the module and write what happened.

Usage: driver.py MODULE-DIRECTORY OPERATIONS RESULTS
"""
import ctypes
import datetime
import gc
import json
import sys
import threading

sys.path.insert(0, sys.argv[1])
import logreduce_rust as lr  # noqa: E402

ops = json.load(open(sys.argv[2]))
models = {}
results = []


def capsule(name):
    new = ctypes.pythonapi.PyCapsule_New
    new.restype = ctypes.py_object
    new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    buf = ctypes.create_string_buffer(256)
    keep = None if name is None else ctypes.create_string_buffer(name.encode())
    models.setdefault("", []).append((buf, keep))
    return new(ctypes.addressof(buf), None if keep is None else ctypes.cast(keep, ctypes.c_char_p), None)


def odd(kind, model):
    """A value that is no model, or no value of the expected kind."""
    import socket
    import unicodedata

    return {
        "datetime": lambda: datetime.datetime_CAPI,
        "ucn": lambda: getattr(unicodedata, "_ucnhash_CAPI", None) or getattr(unicodedata, "ucnhash_CAPI", None),
        "socket": lambda: getattr(__import__("_socket"), "CAPI", None),
        "unnamed": lambda: capsule(None),
        "empty-name": lambda: capsule(""),
        "near-name": lambda: capsule("logreduce_rust"),
        "longer-name": lambda: capsule("logreduce_rust.matrix.features"),
        "none": lambda: None,
        "int": lambda: 42,
        "address": lambda: id(model),
        "str": lambda: "model",
        "list": lambda: [],
        "bytes": lambda: b"\0" * 64,
        "type": lambda: type(model),
        "surrogate": lambda: "a \ud800 b",
        "ints": lambda: [1, 2],
        "negative": lambda: -1,
        "huge": lambda: 1 << 70,
        "big-int": lambda: [256],
        "negative-int": lambda: [-1],
        "float": lambda: 1.5,
        "nested": lambda: [["x"]],
        "surrogates": lambda: ["fine", "\udfff"],
    }[kind]()


def plain(v):
    """Numbers that JSON does not have (from damaged matrices) become text."""
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def run(op):
    k = op[0]
    if k == "process":
        return lr.process(op[1])
    if k == "generate":
        return lr.generate(op[1])
    if k == "index":
        models[op[1]] = lr.index(op[2])
        return None
    if k == "index_mat":
        models[op[1]] = lr.index_mat(op[2])
        return None
    if k == "search":
        return lr.search(models[op[1]], op[2])
    if k == "search_mat":
        return lr.search_mat(models[op[1]], op[2])
    if k == "save_mat":
        b = lr.save_mat(models[op[1]])
        return list(b)
    if k == "load_mat":
        models[op[1]] = lr.load_mat(bytes(op[2]) if op[3] else op[2])
        return None
    if k == "resave":
        # A saved model, loaded again.
        models[op[2]] = lr.load_mat(lr.save_mat(models[op[1]]))
        return None
    if k == "drop":
        del models[op[1]]
        gc.collect()
        return None
    if k == "drop-thread":
        m = [models.pop(op[1])]
        t = threading.Thread(target=m.clear)
        t.start()
        t.join()
        gc.collect()
        return None
    if k == "damaged":
        m = lr.load_mat(bytes(op[1]))
        return lr.search_mat(m, op[2])
    if k == "odd-model":
        return getattr(lr, op[1])(*([odd(op[2], models.get(op[3]))] + op[4]))
    if k == "odd-arg":
        a = [models[op[3]]] if op[3] else []
        return getattr(lr, op[1])(*(a + [odd(op[2], None)]))
    if k == "arity":
        return getattr(lr, op[1])(*op[2])
    if k == "threads":
        # Threads search models of their own and shared ones while the owner lets go of them.
        out = [None] * len(op[3])

        def work(i, f, m, arg):
            try:
                out[i] = [f(m, arg) for _ in range(3)]
            except BaseException as e:  # noqa: B036
                out[i] = repr(e)

        ts = []
        for i, (kind, name, arg) in enumerate(op[3]):
            f = lr.search if kind == "search" else lr.search_mat
            ts.append(threading.Thread(target=work, args=(i, f, models[name], arg)))
        for t in ts:
            t.start()
        for name in op[2]:
            models.pop(name, None)
        gc.collect()
        for t in ts:
            t.join()
        return out
    raise SystemExit("unknown operation %r" % k)


for op in ops:
    try:
        results.append({"ok": run(op)})
    except SystemExit:
        raise
    except BaseException as e:  # a panic is not an Exception
        results.append({"exc": type(e).__name__, "text": str(e)[:300]})
    # The last finished operation, should the interpreter die.
    with open(sys.argv[3] + ".at", "w") as f:
        f.write(str(len(results)))
models.clear()
gc.collect()
json.dump(plain(results), open(sys.argv[3], "w"))
