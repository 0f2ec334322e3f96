"""Runs operations of the Python binding for the explorer: one JSON command per line, one JSON reply per line.

driver.py DIR, where DIR holds the package polodb with the built extension.
Values are tagged lists: ["n"], ["b", bool], ["i", "decimal"], ["f", "bits"], ["s", text], ["y", hex],
["l", [..]], ["d", [[k, v], ..]], ["t", [..]] a tuple, ["D", [y, mo, d, h, mi, s, us], offset minutes or null],
["r", pattern, flags], ["w", name] a value no database can hold.
"""
import datetime
import json
import re
import struct
import sys

sys.path.insert(0, sys.argv[1])
import polodb  # noqa: E402

out = sys.stdout
sys.stdout = sys.stderr


class Odd:
    pass


def odd(name):
    if name == "object":
        return Odd()
    if name == "set":
        return {1}
    if name == "date":
        return datetime.date(2020, 1, 1)
    if name == "delta":
        return datetime.timedelta(1)
    if name == "complex":
        return 1j
    if name == "surrogate":
        return "\ud800"
    if name == "function":
        return len
    if name == "class":
        return int
    if name == "self dict":
        d = {}
        d["d"] = d
        return d
    if name == "self list":
        x = []
        x.append(x)
        return x
    if name == "generator":
        return (i for i in ())
    raise ValueError(name)


def dec(v):
    t = v[0]
    if t == "n":
        return None
    if t == "b" or t == "s":
        return v[1]
    if t == "i":
        return int(v[1])
    if t == "f":
        return struct.unpack(">d", bytes.fromhex(v[1]))[0]
    if t == "y":
        return bytes.fromhex(v[1])
    if t == "l":
        return [dec(x) for x in v[1]]
    if t == "t":
        return tuple(dec(x) for x in v[1])
    if t == "d":
        return {dec(k): dec(x) for k, x in v[1]}
    if t == "D":
        z = None if v[2] is None else datetime.timezone(datetime.timedelta(minutes=v[2]))
        return datetime.datetime(*v[1], tzinfo=z)
    if t == "r":
        return re.compile(v[1], v[2])
    if t == "w":
        return odd(v[1])
    raise ValueError(t)


def enc(v):
    if v is None:
        return ["n"]
    t = type(v)
    if t is bool:
        return ["b", v]
    if t is int:
        return ["i", str(v)]
    if t is float:
        return ["f", struct.pack(">d", v).hex()]
    if t is str:
        return ["s", v]
    if t is bytes:
        return ["y", v.hex()]
    if t is list:
        return ["l", [enc(x) for x in v]]
    if t is tuple:
        return ["t", [enc(x) for x in v]]
    if t is dict:
        return ["d", [[enc(k), enc(x)] for k, x in v.items()]]
    if t is datetime.datetime:
        o = v.utcoffset()
        return ["D", [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond], None if o is None else int(o.total_seconds()) // 60]
    if t is re.Pattern:
        return ["r", v.pattern, v.flags & ~int(re.UNICODE)]
    return ["?", repr(t)]


def deep(kind, depth):
    v = 1
    for i in range(depth):
        v = {"a": v, "b": None} if kind == 0 or kind == 2 and i % 2 == 0 else [v, 2]
    return v


def flat(v):
    """the same for equal values, made without recursion"""
    r, todo = [], [v]
    while todo:
        x = todo.pop()
        r.append(type(x).__name__)
        if type(x) is dict:
            r.extend(x)
            todo.extend(x.values())
        elif type(x) is list:
            r.append(len(x))
            todo.extend(x)
        else:
            r.append(x)
    return r


db = None
kept = {}


def run(c):
    global db
    op = c["op"]
    if op == "open":
        db = polodb.PoloDB(c["path"])
        return None
    if op == "close":
        db = None
        kept.clear()
        return None
    if op == "enter":
        db = polodb.PoloDB(c["path"]) if db is None else db
        assert db.__enter__() is db
        return None
    if op == "exit":
        db.__exit__(None, None, None)
        return None
    if op == "names":
        return db.list_collection_names()
    if op == "keep":
        kept[c["coll"]] = coll(c)
        return None
    if op == "deep":
        # stored, read back and compared
        k = coll(c)
        v = deep(c["kind"], c["depth"])
        k.insert_one({"_id": c["id"], "v": v})
        return [flat(d["v"]) == flat(v) for d in (k.find_one({"_id": c["id"]}), k.find({"_id": c["id"]})[0], k.aggregate([{"$match": {"_id": c["id"]}}])[0])]
    if op == "call":
        k = coll(c)
        return getattr(k, c["m"])(*[dec(a) for a in c["a"]])
    raise ValueError(op)


def coll(c):
    how = c.get("how", 0)
    if how == 1:
        return getattr(db, c["coll"])
    if how == 2:
        return db.collection(c["coll"])
    if how == 3:
        return kept[c["coll"]]
    return db[c["coll"]]


for line in sys.stdin:
    try:
        r = {"ok": enc(run(json.loads(line)))}
    except BaseException as e:  # a panic is not an Exception
        r = {"err": type(e).__name__, "exception": isinstance(e, Exception), "text": str(e)[:200]}
    out.write(json.dumps(r) + "\n")
    out.flush()
