"""Executable reference model: a map whose entries may be in doubt after failed calls."""

ABSENT = None


class MapModel:
    """allowed[id]: the values a read may show now.
    since[id]: the last acknowledged value plus those of later unacknowledged calls
    (what may come back after a power loss)."""

    def __init__(self):
        self.allowed = {}
        self.since = {}
        self.doubt = {}

    def get(self, i):
        return self.allowed.get(i, {ABSENT})

    def ids(self):
        return list(self.allowed)

    def ack(self, i, alt):
        self.allowed[i] = {alt}
        self.since[i] = {alt}
        self.doubt[i] = False

    def maybe(self, i, alt):
        self.since[i] = self.since.get(i, set(self.get(i))) | {alt}
        self.allowed[i] = self.get(i) | {alt}
        self.doubt[i] = True

    def observe(self, i, alt):
        self.allowed[i] = {alt}
        if not self.doubt.get(i):
            self.since[i] = {alt}

    def narrow(self, i, present):
        """It was seen to be present / absent."""
        cur = self.get(i)
        new = {a for a in cur if (a is not None) == present}
        if not new:
            return False
        if len(new) < len(cur):
            self.allowed[i] = new
            if not self.doubt.get(i):
                self.since[i] = set(new)
        return True

    def crashed(self, power):
        for i in self.allowed:
            if power:
                self.allowed[i] = self.allowed[i] | self.since.get(i, set())
            self.since[i] = set(self.allowed[i])
            self.doubt[i] = False

    def must(self):
        return {i for i, a in self.allowed.items() if ABSENT not in a}

    def may(self):
        return {i for i, a in self.allowed.items() if a != {ABSENT}}
