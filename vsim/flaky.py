"""Wrappers that inject failures at the library's own interfaces (storage, client)."""
from valori.exceptions import StorageError
from valori.storage.base import StorageBackend


class FlakyStorage(StorageBackend):
    """A storage backend whose calls fail as the scenario says: before doing anything, or
    after the effect took place (as when a final sync fails)."""

    def __init__(self, env, inner, faults):
        super().__init__({})
        self.env, self.inner = env, inner
        self.plan = {(f["op"], f["n"]): f for f in faults}
        self.cur = None
        self.n = 0
        self.left = 0
        self.when = "before"

    def _call(self, name, *a):
        env = self.env
        if env.fs.quiet:
            return getattr(self.inner, name)(*a)
        if self.cur != env.opno:
            self.cur, self.n = env.opno, 0
        f = self.plan.get((env.opno, self.n))
        self.n += 1
        if f is not None:
            self.left, self.when = f.get("dur", 1), f["when"]
        if self.left > 0:
            self.left -= 1
            env.fs.fired["storage_error"] = env.fs.fired.get("storage_error", 0) + 1
            env.log.add("storage_error", name, self.when)
            if self.when == "after":
                getattr(self.inner, name)(*a)
            raise StorageError("injected storage failure in %s" % name)
        return getattr(self.inner, name)(*a)

    def clear_errors(self):
        self.left = 0

    def initialize(self):
        self.inner.initialize()
        self._initialized = True

    def store_vector(self, id, vector, metadata=None):
        return self._call("store_vector", id, vector, metadata)

    def retrieve_vector(self, id):
        return self._call("retrieve_vector", id)

    def delete_vector(self, id):
        return self._call("delete_vector", id)

    def update_vector(self, id, vector, metadata=None):
        return self._call("update_vector", id, vector, metadata)

    def list_vectors(self, limit=None):
        return self._call("list_vectors", limit)

    def get_stats(self):
        return self._call("get_stats")

    def close(self):
        self.inner.close()
        self._initialized = False
