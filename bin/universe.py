"""Small universes for spec/GenFilter.tla: a filter to start with and a handful of keys that are near
each other in one of the ways that matter (prefixes of one another, equal up to trailing zeros, equal
up to some bit, next to a boundary), and the conversion of what TLC wrote to what the driver reads."""
import json, random


def strip(k):
    k = list(k)
    while k and k[-1] == 0:
        k.pop()
    return tuple(k)


def universe(n, tab, depth):
    R = random.Random(n * 7919 + 13)
    kind = n % 6
    edge = [0, 1, 2, 127, 128, 129, 254, 255]
    first = [1, 2, 3, 64, 127, 128, 129, 192, 254]
    alpha = R.sample(edge, 3) + [R.randrange(256)]
    route, int_opt, nk = 1 + R.randrange(2), 0, 4

    def some(k):            # a neighbour of a key
        k = list(k)
        c = R.randrange(6)
        if c == 0:
            k += [R.choice(alpha) for _ in range(R.randint(1, 3))]
        elif c == 1 and len(k) > 1:
            k = k[:R.randint(1, len(k) - 1)]
        elif c == 2:
            i = R.randrange(len(k))
            k[i] ^= 1 << R.randrange(8)
        elif c == 3:
            k.append(0)
        elif c == 4:
            k[-1] = R.choice(alpha)
        else:
            i = R.randrange(len(k))
            k = k[:i + 1]
            k[i] = (k[i] + R.choice([1, 255])) % 256
        if k[0] in (0, 255):
            k[0] = R.choice(first)
        return k[:12]

    if kind in (0, 1):      # short keys
        base = [R.choice(first)] + [R.choice(alpha) for _ in range(R.randrange(3))]
    elif kind == 2:         # long common prefix
        base = [R.choice(first)] + [R.choice([0, 255, 85]) for _ in range(R.randint(3, 8))] + [R.choice(alpha)]
    else:                   # integers
        base = [R.choice(first)] + [R.choice(edge + [R.randrange(256)] * 4) for _ in range(7)]
        int_opt, route = R.randrange(2), R.randrange(3)

    def integer(k):
        v = int.from_bytes(bytes(k), "big")
        c = R.randrange(4)
        if c == 0:
            v ^= 1 << R.randrange(62)
        elif c == 1:
            v += R.choice([-1, 1]) << R.randrange(60)
        elif c == 2:
            s = R.randrange(4, 60)
            v = (v >> s << s) + R.choice([0, (1 << s) - 1])
        else:
            v ^= R.randrange(1 << R.randrange(8, 58))
        v = min(max(v, 1 << 56), (255 << 56) - 1)
        return list(v.to_bytes(8, "big"))

    step = some if kind < 3 else integer
    keys, bulk = [base], []
    while len(keys) < nk:
        k = step(R.choice(keys))
        if k not in keys:
            keys.append(k)
    if kind == 5:           # a store about to change its size
        m, s = R.choice([56, 57, 58, 59, 60, 62, 63, 64, 66]), R.randint(34, 50)
        top = int.from_bytes(bytes(base), "big") >> s << s
        bulk = [list((top + R.randrange(1 << s)).to_bytes(8, "big")) for _ in range(m)]
        keys = keys[:1] + [list((top + R.randrange(1 << s)).to_bytes(8, "big")), R.choice(bulk)]
    else:
        for _ in range(R.choice([1, 1, 2, 3])):
            bulk.append(step(R.choice(keys + bulk)))
        if R.random() < 0.5:
            keys[-1] = bulk[0]
    seen, b = set(), []
    for k in sorted(bulk):
        if strip(k) not in seen:
            seen.add(strip(k))
            b.append(k)
    bulk = b
    if route == 0 and len({len(k) for k in bulk}) > 1:
        route = 2
    if kind < 3 and route == 0:
        route = 2
    # below the upper boundary key, above the lower one
    hi = [255] * max(len(k) for k in bulk)
    keys = sorted(k for i, k in enumerate(keys) if k not in keys[:i] and k < hi and any(k))
    I = R.choice([3, 4, 4, 5, 6, 7, 9, 12])
    return dict(I=I, lf=0, int_opt=int_opt, route=route, bulk=bulk, keys=keys, tab=tab, depth=depth, minI=3)


def convert(u, lines, path):
    def key(k):
        return [len(k)] + k
    n = 0
    with open(path, "w") as o:
        w = [u["I"], u["lf"], u["int_opt"], u["route"], len(u["bulk"])] + sum(map(key, u["bulk"]), [])
        w += [len(u["keys"])] + sum(map(key, u["keys"]), [])
        print(*w, file=o)
        with open(lines) as f:
            for l in f:
                e = json.loads(json.loads(l))
                w = [len(e["h"])] + sum(e["h"], []) + [len(e["st"])]
                for s in e["st"]:
                    w += key(s["key"]) + [s["part"], s["inv"], s["grade"], len(s["list"])] + s["list"]
                w += e["p"] + sum(e["r"], []) + [e["sz"]]
                print(*w, file=o)
                n += 1
    return n
