# Executes programs, one JSON document per line, with the classes of rust.py (in the current
# directory, as its library path is relative). Answers one line per program: "ok" or what was wrong.
import gc
import json
import sys

sys.path.insert(0, ".")
import rust  # noqa: E402


class Boom(Exception):
    pass


# exceptions that leave a block have to come out of it, whatever their type
KINDS = (Boom, RuntimeError, ValueError, KeyError, OSError, TypeError, StopIteration, KeyboardInterrupt)


class Bad(Exception):
    pass


def raises(what, f, kind=RuntimeError):
    try:
        f()
    except kind:
        return
    except Exception as e:
        raise Bad("%s raises %r" % (what, e))
    raise Bad("%s raises nothing" % what)


def schema(s):
    if s["enums"]:
        return rust.Schema(s["dev"], s["meas"], rust.TSDataType.INT32,
                           rust.TSEncoding.TS2DIFF if s["enc"] == 4 else rust.TSEncoding.PLAIN,
                           rust.CompressionType.SNAPPY if s["comp"] == 1 else rust.CompressionType.UNCOMPRESSED)
    return rust.Schema(s["dev"], s["meas"], 1, s["enc"], s["comp"])


def points(w, s, pts):
    for t, v in pts:
        w.write_int(s["dev"], s["meas"], t, v)


def run(program):
    schemas, writers, spec = {}, {}, program["schemas"]
    for a in program["acts"]:
        op = a[0]
        if op == "schema":
            schemas[a[1]] = schema(spec[a[2]])
        elif op == "writer":
            writers[a[1]] = rust.TsFileWriter(a[3], schemas[a[2]])
        elif op == "write":
            points(writers[a[1]], spec[a[2]], a[3])
        elif op == "close":
            writers[a[1]].close()
        elif op == "free":
            schemas[a[1]].free()
        elif op == "forget":
            del schemas[a[1]]
            gc.collect()
        elif op == "free again":
            raises("a second free", schemas[a[1]].free)
        elif op == "close again":
            raises("a second close", writers[a[1]].close)
        elif op == "write closed":
            s = spec[a[2]]
            raises("a write after close",
                   lambda: writers[a[1]].write_int(s["dev"], s["meas"], a[3], a[4]))
        elif op == "with":
            # a schema and its writers one after the other or nested, perhaps left by an exception
            _, i, boom, nested, jobs = a
            s = spec[i]
            sch = None
            kind = KINDS[sum(len(pts) for _, pts in jobs) % len(KINDS)]
            mine = kind("boom")
            done = []
            try:
                with schema(s) as sch:
                    if nested:
                        nest(s, sch, jobs, done, mine if boom else None)
                    else:
                        for k, (name, pts) in enumerate(jobs):
                            with rust.TsFileWriter(name, sch) as w:
                                done.append(w)
                                points(w, s, pts)
                                if boom and k == len(jobs) - 1:
                                    raise mine
                if boom:
                    raise Bad("the exception is lost")
            except Bad:
                raise
            except BaseException as e:
                if not boom or e is not mine:
                    raise
            for w in done:
                raises("a close after the block", w.close)
                raises("a write after the block",
                       lambda: w.write_int(s["dev"], s["meas"], 2 ** 63 - 1, 0))
            raises("a free after the block", sch.free)
        else:
            raise Bad("unknown act %r" % op)


def nest(s, sch, jobs, done, boom):
    if not jobs:
        if boom:
            raise boom
        return
    name, pts = jobs[0]
    with rust.TsFileWriter(name, sch) as w:
        done.append(w)
        half = len(pts) // 2
        points(w, s, pts[:half])
        nest(s, sch, jobs[1:], done, None)
        points(w, s, pts[half:])
        if boom:
            raise boom


for line in sys.stdin:
    try:
        run(json.loads(line))
        answer = "ok"
    except Bad as e:
        answer = str(e)
    except BaseException as e:
        answer = "%s: %s" % (type(e).__name__, e)
    gc.collect()
    sys.stdout.write("ANSWER " + answer.replace("\n", " ").encode("ascii", "backslashreplace").decode() + "\n")
    sys.stdout.flush()
