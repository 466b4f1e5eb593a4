"""Base class of the property checks."""
import copy


class Prop:
    id = "?"
    rule = ""
    assumptions = []
    real = []
    stubs = []
    quick = (4000, 25)
    thorough = (400000, 600)

    def budget(self, tier):
        return self.thorough if tier == "thorough" else self.quick

    def gen(self, rng, tier, seed):
        raise NotImplementedError

    def run(self, scn, keep_log=False):
        raise NotImplementedError

    def nontrivial(self, scn, out):
        return True

    def with_decisions(self, scn, decisions):
        s = copy.deepcopy(scn)
        s["sched"] = dict(s.get("sched") or {}, replay=decisions)
        return s

    # -- shrinking: yields smaller scenarios, most aggressive first ----------
    def shrink(self, scn):
        ops = scn.get("ops", [])
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = self._drop(scn, a, min(n, a + size))
                if c is not None:
                    yield c
            size //= 2
        for key in ("faults", "sfaults"):
            for i in range(len(scn.get(key, []))):
                c = copy.deepcopy(scn)
                del c[key][i]
                yield c
        sch = (scn.get("sched") or {}).get("replay")
        if sch:
            m = len(sch)
            size = max(1, m // 2)
            while size >= 1:
                for a in range(0, m, size):
                    c = copy.deepcopy(scn)
                    del c["sched"]["replay"][a:a + size]
                    yield c
                if size == 1:
                    break
                size //= 2
        yield from self.shrink_values(scn)

    def shrink_values(self, scn):
        return ()

    def _drop(self, scn, a, b):
        """Remove ops a..b-1 and renumber the operation index of faults."""
        c = copy.deepcopy(scn)
        del c["ops"][a:b]
        for key in ("faults", "sfaults"):
            fs = []
            for f in c.get(key, []):
                if a <= f["op"] < b:
                    continue
                if b <= f["op"] < 900:
                    f["op"] -= b - a
                elif f["op"] >= 1000:
                    if a <= f["op"] - 1000 < b:
                        continue
                    if f["op"] - 1000 >= b:
                        f["op"] -= b - a
                fs.append(f)
            if key in c:
                c[key] = fs
        return c
