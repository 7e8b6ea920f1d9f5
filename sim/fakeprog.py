"""The external programs (Rscript rmi.R, julia mi_estimator.jl) as deterministic stand-ins.

They follow the documented command line of /repo/external and compute a number
that depends on everything they are given, so that any corruption on the way shows."""
import csv
import hashlib
import os


LAST = {}      # command line -> (options, dim_x, dim_y, header, rows) as the program saw them


class Usage(Exception):
    pass


def _options(argv, spec):
    pos, opt = [], {}
    i = 0
    while i < len(argv):
        a = argv[i]
        if a.startswith("--"):
            name, eq, val = a[2:].partition("=")
            if name not in spec:
                raise Usage(f"unrecognized arguments: {a}")
            if not eq:
                i += 1
                if i >= len(argv):
                    raise Usage(f"expected one argument for {a}")
                val = argv[i]
            try:
                opt[name] = spec[name](val)
            except ValueError:
                raise Usage(f"invalid value {val!r} for {a}")
        else:
            pos.append(a)
        i += 1
    return pos, opt


def read_table(path):
    from sim.fs import real_open     # the child process is not subject to the faults of its parent
    with real_open(path, newline="") as f:
        rows = list(csv.reader(f))
    if not rows:
        raise Usage("no lines available in input")
    header, body = rows[0], [[float(v) for v in r] for r in rows[1:]]
    if any(len(r) != len(header) for r in body):
        raise Usage("line did not have as many elements as the header")
    return header, body


def value_of(tag, dim_x, dim_y, body):
    """A number in (0, 3) determined by the program, its options, the split and the data
    (to 9 significant digits, so that text formatting of the sample does not matter)."""
    h = hashlib.sha256()
    h.update(repr((tag, dim_x, dim_y, len(body))).encode())
    for r in body:
        h.update(",".join(f"{v:.9e}" for v in r).encode() + b"\n")
    return int.from_bytes(h.digest()[:6], "big") / 2**48 * 3


def rscript(argv):
    spec = {"method": str, "neighbors": int, "alpha": float, "truncation": int, "proc": int}
    try:
        if len(argv) < 2 or not os.path.isfile(argv[1]):
            return b"", f"Fatal error: cannot open file '{argv[1:2]}': No such file or directory\n".encode(), 2
        if os.path.basename(argv[1]) != "rmi.R":
            return b"", b"unknown script\n", 2
        pos, opt = _options(argv[2:], spec)
        if len(pos) != 3:
            raise Usage("the following arguments are required: FILE, DIMX, DIMY")
        if not os.path.isabs(pos[0]):
            raise Usage("relative path")
        dx, dy = int(pos[1]), int(pos[2])
        method = opt.get("method", "KSG1")
        proc = opt.get("proc", 0)
        if (proc > 2 and proc != 10) or proc < 0:
            raise Usage("--proc must be 0, 1, 2 or 10")
        if method in ("KSG1", "KSG2"):
            tag = (method, opt.get("neighbors", 10))
        elif method == "LNN":
            tag = (method, opt.get("neighbors", 10), opt.get("truncation", 30))
        elif method == "BNSL":
            tag = (method, proc)
        else:
            raise Usage(f"Method {method} not recognized.")
        header, body = read_table(pos[0])
        if dx < 1 or dy < 1 or dx + dy != len(header):
            raise Usage(f"dimensions {dx}+{dy} do not match {len(header)} columns")
        LAST[tuple(argv)] = (("R",) + tag, dx, dy, header, body)
        return b"%.7g\n" % value_of(("R",) + tag, dx, dy, body), b"", 0
    except Usage as e:
        return b"", f"Error: {e}\nExecution halted\n".encode(), 1
    except (OSError, ValueError) as e:
        return b"", f"Error in file: {e}\nExecution halted\n".encode(), 1


def julia(argv):
    spec = {"neighbors": int, "estimator": str, "bins": int, "bandwidth": float}
    try:
        if len(argv) < 2 or not os.path.isfile(argv[1]):
            return b"", b"ERROR: SystemError: opening file: No such file or directory\n", 1
        if os.path.basename(argv[1]) != "mi_estimator.jl":
            return b"", b"unknown script\n", 2
        pos, opt = _options(argv[2:], spec)
        if len(pos) != 3:
            raise Usage("required arguments missing")
        if not os.path.isabs(pos[0]):
            raise Usage("relative path")
        dx, dy = int(pos[1]), int(pos[2])
        est = opt.get("estimator", "KSG1")
        if est in ("KSG1", "KSG2"):
            tag = (est, opt.get("neighbors", 10))
        elif est in ("Histogram", "Transfer"):
            tag = (est, opt.get("bins", 10))
        elif est == "Kernel":
            tag = (est, opt.get("bandwidth", 1.0))
        else:
            raise Usage("the estimator type is wrong")
        header, body = read_table(pos[0])
        if dx < 1 or dy < 1 or dx + dy != len(header):
            raise Usage("the dimensions do not match")
        LAST[tuple(argv)] = (("julia",) + tag, dx, dy, header, body)
        return (repr(value_of(("julia",) + tag, dx, dy, body)) + "\n").encode(), b"", 0
    except Usage as e:
        return b"", f"ERROR: ArgumentError: {e}\n".encode(), 1
    except (OSError, ValueError) as e:
        return b"", f"ERROR: {e}\n".encode(), 1


def programs():
    return {"Rscript": rscript, "julia": julia}
