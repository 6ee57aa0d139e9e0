"""signatures of the harness entry points: p pointer, z usize, b/h/w/q u8..u64"""

COMMON = {
    "size": ":z", "align": ":z", "default": "p", "append": "ppz", "clone": "pp", "clonefrom": "pp",
    "checkpoint": "pp", "fin64": "pp", "fin128": "pp", "fin256": "pp", "hash64": "ppzp",
    "hash128": "ppzp", "hash256": "ppzp", "drop": "p", "dbgtext": "pbpz:z", "new": "pp", "restore": "pp",
}
ADAPT = {
    "bhdefault": "p", "hwrite": "ppz", "wu8": "pb", "wu16": "ph", "wu32": "pw", "wu64": "pq",
    "wu128": "pqq", "wusize": "pz", "wi8": "pb", "wi16": "ph", "wi32": "pw", "wi64": "pq",
    "wi128": "pqq", "wisize": "pz", "hashval": "pwpz", "finish": "pp",
}
IO = {"iowrite": "ppzp:b", "iowriteall": "ppz:b", "iowritev": "ppzpzp:b", "ioflush": "p:b", "iocopy": "ppzp:b"}
PROBE = {"trynew": "pp:b", "tryrestore": "pp:b"}
BUILDER = {"size": ":z", "align": ":z", "new": "pp", "default": "p", "build": "pp", "hashone": "pwpzp",
           "dbgtext": "ppz:z"}
BITS = {"b": 8, "h": 16, "w": 32, "q": 64}


def table(kinds, std):
    t = {}
    for k in kinds:
        for n, s in COMMON.items():
            t[k + "_" + n] = s
        if k != "n":
            for n, s in ADAPT.items():
                t[k + "_" + n] = s
            if std:
                for n, s in IO.items():
                    t[k + "_" + n] = s
        if k in "sa":
            for n, s in PROBE.items():
                t[k + "_" + n] = s
    for n, s in BUILDER.items():
        t["b_" + n] = s
    return t
