"""Seeded generators of ids, metadata and vectors (JSON-representable)."""

ID_POOL = ["a", "b", "c", "a/b", "a_b", "a b", "a.b", "a\\b", "a:b", "A", "é", "e\u0301", "..", ".",
           ".hidden", "a.npy", "a.pkl", "%41", "a%2Fb", "日本", "x?", "x*", "x_", "id-1", "id_1", "id 1",
           "../b", "/a", "a/", "~", "a\tb", "a\nb", "vec.tmp", "a__b", "a_/b", "a\u00a0b", "\u2160", "'", '"', "-",
           "[a]", "{a}", "a,b", "a;b", "CON", "_", "__", "%", "%25", "+", "a+b", "0", "00"]


TWISTS = [
    lambda s: s + " ", lambda s: " " + s, lambda s: s + "\n", lambda s: s + "\t", lambda s: "\u00a0" + s,
    lambda s: s + "\u200b", lambda s: s + "\r", lambda s: s + "\0",
    str.upper, str.lower, str.title, str.swapcase,
    lambda s: s + "/", lambda s: "/" + s, lambda s: "./" + s, lambda s: "../" + s, lambda s: s + "/.",
    lambda s: s + "//x", lambda s: s + "/x", lambda s: s + "_x", lambda s: s + "\\x", lambda s: s + ":x", lambda s: s + "-x",
    lambda s: s + "%2Fx", lambda s: s + "%252Fx", lambda s: s + "%2fx", lambda s: s + "+x", lambda s: s + " x", lambda s: s + "%20x",
    lambda s: s + ".npy", lambda s: s + ".pkl", lambda s: s + ".tmp", lambda s: s + ".json", lambda s: s + ".meta", lambda s: s + ".",
    lambda s: "." + s, lambda s: s + "~", lambda s: "%%%02X" % (ord(s[0]) % 256) + s[1:],
    lambda s: "0" + s, lambda s: s + "0", lambda s: s + "_", lambda s: "_" + s, lambda s: s + "__", lambda s: s * 2,
    lambda s: s.replace("-", "_"), lambda s: s.replace("-", ""), lambda s: s.replace(".", "_"), lambda s: s.split(".")[0] or s,
    lambda s: s + "\u00e9", lambda s: s + "e\u0301", lambda s: s + "\u0301", lambda s: s + "\ufb01", lambda s: s + "fi",
    lambda s: s + "\u212a", lambda s: s + "K", lambda s: s + "\u00df", lambda s: s + "ss", lambda s: s + "?", lambda s: s + "#x",
    lambda s: s + "l" * 60 + "a", lambda s: s + "l" * 60 + "b", lambda s: s + "l" * 130 + "a", lambda s: s + "l" * 130 + "b",
    lambda s: s[::-1], lambda s: s[:-1] or s, lambda s: s[1:] or s,
]


def family(rng, n):
    """n distinct ids made from one by small changes: whatever folds, strips, truncates or escapes ids
    merges some of them."""
    base = rng.choice(["a", "b", "v1", "doc-1", "x.y", "1", "a/b", "Doc 1", "3f2b-77", "1e3"])
    out = [base]
    while len(out) < n:
        f = rng.choice(TWISTS)(rng.choice(out[:2] if rng.random() < 0.8 else out))
        if f not in out and len(f) < 150:
            out.append(f)
    rng.shuffle(out)
    return out


def rid(rng, n):
    """n distinct ids; often close to one another (collision candidates)."""
    r = rng.random()
    if r < 0.35:
        return ["v%d" % i for i in range(n)]
    if r < 0.65:
        return family(rng, n)
    pool = list(ID_POOL)
    rng.shuffle(pool)
    return pool[:n]


# metadata values that are neither JSON nor plain containers
ODD = [{"__a": ["<f4", [1.5, -2.25]]}, {"__a": ["<f8", 0.1]}, {"__a": ["<f4", 0.25]}, {"__a": ["<i8", 7]},
       {"__a": ["<f8", [[0.1, 2.0], [3.0, 1e-9]]]}, {"__a": ["|b1", [True, False]]}, {"__a": ["<U3", ["a", "\u00e9"]]},
       {"__d": "2026-02-28T23:59:59.999999"}, {"__d": "1969-12-31T00:00:00"}, {"__s": [1, 2, 30]},
       {"__s": ["a", "b"]}, {"__k": [[1, "x"], [2, [3]]]}, {"__k": [[{"__t": [1, 2]}, "x"], [None, 0]]}, 2 ** 70, -2 ** 63,
       0.1, -0.0, float("inf"), 1e-320, "a" * 9000, "\ud83d\ude00", "a\0b", "line\nline\r\n", {"__b": "00" * 5000}]


def rmeta(rng, depth=0):
    r = rng.random()
    if depth == 0:
        if r < 0.25:
            return None
        if r < 0.3:
            return {}
        return {rng.choice("abcde"): rmeta(rng, 1) for _ in range(rng.randint(1, 3))}
    if r < 0.3:
        return rng.randint(-5, 5)
    if r < 0.5:
        return rng.choice(["x", "y", "", "é", "日本"])
    if r < 0.6:
        return rng.choice([0.5, True, False, None, 1e300])
    if r < 0.65:
        return {"__b": "00ff%02x" % rng.randrange(256)}
    if r < 0.69:
        return rng.choice(ODD)
    if depth > 2:
        return rng.randint(0, 9)
    if r < 0.8:
        return [rmeta(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if r < 0.85:
        return {"__t": [rmeta(rng, depth + 1) for _ in range(rng.randint(0, 2))]}
    return {rng.choice("abcde"): rmeta(rng, depth + 1) for _ in range(rng.randint(0, 2))}


def like_meta(m):
    """The same value to ==, of other types: 1, True, 1.0."""
    if isinstance(m, bool):
        return int(m)
    if isinstance(m, int):
        return bool(m) if m in (0, 1) else float(m) if abs(m) < 2 ** 50 else m
    if isinstance(m, float):
        return int(m) if m == m and abs(m) < 2 ** 50 and m == int(m) else m
    if isinstance(m, list):
        return [like_meta(x) for x in m]
    if isinstance(m, dict) and not any(k.startswith("__") for k in m):
        return {k: like_meta(v) for k, v in m.items()}
    return m


def like_vec(v):
    """The same numbers in another type, or with the other zero."""
    if "x" not in v or not isinstance(v["x"], list) or any(isinstance(a, list) for a in v["x"]):
        return v
    if 0.0 in v["x"] and v["dt"][1] == "f":
        return dict(v, x=[-0.0 if a == 0 and str(a) != "-0.0" else 0.0 if a == 0 else a for a in v["x"]])
    dt = {"<f4": "<f8", "<f8": ">f8" if any(isinstance(a, float) and a * 4 % 1 for a in v["x"]) else "<f4", "<i8": "<f8"}
    return dict(v, dt=dt.get(v["dt"], v["dt"]))


def twin(rng, v, m):
    """A pair that differs little, or in one half only, from one stored before."""
    r = rng.random()
    if r < 0.3:
        return like_vec(v), m
    if r < 0.6:
        return v, like_meta(m)
    if r < 0.7:
        return like_vec(v), like_meta(m)
    if r < 0.85:
        return v, rmeta(rng)
    return rvec_any(rng), m


def rcoord(rng):
    return rng.randint(-12, 12) / 4


def rvec(rng, dim=None, dts=("<f4", "<f8")):
    d = dim or rng.choice([1, 2, 3, 3, 4, 8])
    return {"x": [rcoord(rng) for _ in range(d)], "dt": rng.choice(dts)}


def rvec_any(rng):
    """Vector for a storage backend: any shape."""
    r = rng.random()
    if r < 0.007:
        return {"x": 2.5, "dt": "<f8"}
    if r < 0.01:
        return {"n": rng.choice([1030, 1100, 5000, 70000]), "a": rng.randrange(9), "dt": rng.choice(["<f4", "<f8"])}
    if r < 0.65:
        return rvec(rng)
    if r < 0.71:
        return dict(rvec(rng), lay=rng.choice(["step", "rev", "ro"]))
    if r < 0.77:
        # any bit pattern
        dt = rng.choice(["<f4", "<f8", "<f2", ">f4", ">f8", "<i4", "|u1", "|i1", "<u8", ">i2", "<c8", "|b1"])
        n, w = rng.choice([1, 2, 3, 5]), int(dt[2])
        b = bytes(rng.choice([rng.randrange(256), rng.randrange(256), 0, 255, 0x7f, 0x80]) for _ in range(n * w))
        if dt == "|b1":
            b = bytes(x & 1 for x in b)
        return {"hex": b.hex(), "dt": dt, "sh": rng.choice([[n], [n], [n, 1], [1, n]])}
    if r < 0.83:
        return {"x": [rng.choice([rng.gauss(0, 1), 0.1, -0.0, 1e-310, 1e300, 1 / 3, 2.0 ** -149, 16777217.0, float("inf")])
                      for _ in range(rng.choice([1, 2, 4]))], "dt": "<f8"}
    if r < 0.85:
        return {"x": [[rcoord(rng) for _ in range(3)] for _ in range(2)], "dt": "<f8", "lay": "F"}
    if r < 0.9:
        return {"x": [[rcoord(rng) for _ in range(3)] for _ in range(2)], "dt": "<f4"}
    if r < 0.93:
        return {"x": [rng.randint(-9, 9) for _ in range(3)], "dt": "<i8"}
    if r < 0.96:
        return {"x": [rcoord(rng) for _ in range(rng.choice([200, 600]))], "dt": "<f8"}
    return {"x": [], "dt": "<f4"}
