"""Stand-ins for the optional embedding model libraries; installed in sys.modules, with the
model's failures, delays and buffers under the simulator's control."""
import hashlib
import sys
import types

import numpy as np

DIM = 8


def answer(text, name, kind):
    """The model's output for a text: well-defined, never zero, different for different texts."""
    h = hashlib.sha256(("%s|%s|%s" % (kind, name, text)).encode("utf-8", "surrogatepass")).digest()
    v = np.frombuffer(h[:DIM], dtype=np.uint8).astype("<f4") - 100.5
    if name == "m3":
        v *= np.float32(2.0 ** -20)
    return v


class Control:
    """What the stub model does during a run."""

    def __init__(self):
        self.reset(None, ())

    def reset(self, env, plan, bad=()):
        self.env = env
        self.plan = {int(f["call"]): f for f in plan}
        self.bad = list(bad)        # texts containing one of these always fail
        self.n = 0
        self.nfail = 0              # model calls that failed
        self.calls = []
        self.quiet = False          # oracle use: no faults, no events

    def encode(self, texts, name, kind):
        import time
        if self.quiet:
            return np.array([answer(t, name, kind) for t in texts], dtype="<f4").reshape(len(texts), DIM)
        n = self.n
        self.n += 1
        f = self.plan.get(n)
        env = self.env
        if env is not None:
            env.log.add("model", n, kind, len(texts))
        if f is not None and f.get("sleep"):
            time.sleep(f["sleep"])
        hit = f is not None and f.get("fail")
        hit = hit or any(b in t for b in self.bad for t in texts)
        if hit:
            self.nfail += 1
            if env is not None:
                env.fs.fired["model_error"] = env.fs.fired.get("model_error", 0) + 1
            raise [RuntimeError, ValueError, MemoryError, OSError][(f or {}).get("cls", 0)]("injected model failure")
        for t in texts:
            self.calls.append(t)
        return np.array([answer(t, name, kind) for t in texts], dtype="<f4").reshape(len(texts), DIM)


CONTROL = Control()


class SentenceTransformer:
    def __init__(self, name, *a, **k):
        self.name = name

    def to(self, device):
        return self

    def encode(self, sentences, batch_size=32, show_progress_bar=None, convert_to_numpy=True, **kw):
        one = isinstance(sentences, str)
        v = CONTROL.encode([sentences] if one else list(sentences), self.name, "st")
        if kw.get("normalize_embeddings"):
            v = v / np.linalg.norm(v, axis=1, keepdims=True)
        return v[0].copy() if one else v

    def get_sentence_embedding_dimension(self):
        return DIM


class Embedding:
    @staticmethod
    def create(input=None, model=None, **kw):
        one = isinstance(input, str)
        v = CONTROL.encode([input] if one else list(input), model, "openai")
        return {"data": [{"embedding": [float(x) for x in r]} for r in v]}


def install():
    m = types.ModuleType("sentence_transformers")
    m.SentenceTransformer = SentenceTransformer
    sys.modules["sentence_transformers"] = m
    o = types.ModuleType("openai")
    o.Embedding = Embedding
    sys.modules["openai"] = o


class Tensor:
    """As much of a torch tensor as a caller of a transformers model needs."""

    def __init__(self, a):
        self.a = a

    def to(self, device):
        return Tensor(self.a)

    def mean(self, dim=None):
        return Tensor(self.a.mean(axis=dim))

    def squeeze(self):
        return Tensor(self.a.squeeze())

    def cpu(self):
        return Tensor(self.a)

    def detach(self):
        return Tensor(self.a)

    def numpy(self):
        return np.array(self.a)

    def flatten(self):
        return Tensor(self.a.flatten())

    def norm(self, dim=None, keepdim=False):
        return Tensor(np.linalg.norm(self.a, axis=dim, keepdims=keepdim))

    def __truediv__(self, o):
        return Tensor(self.a / getattr(o, "a", o))


class AutoTokenizer:
    """One token per character; cuts the text at max_length tokens if told to."""

    @classmethod
    def from_pretrained(cls, name):
        return cls()

    def __call__(self, text, return_tensors=None, truncation=False, max_length=None, padding=False):
        if truncation and max_length:
            text = text[:max_length]
        return {"input_ids": Tensor(np.array([[ord(c) for c in text]])),
                "attention_mask": Tensor(np.ones((1, len(text)), dtype=int))}


class AutoModel:
    def __init__(self, name):
        self.name = name
        self.config = types.SimpleNamespace(hidden_size=DIM)

    @classmethod
    def from_pretrained(cls, name):
        return cls(name)

    def to(self, device):
        return self

    def eval(self):
        return self

    def __call__(self, input_ids=None, attention_mask=None):
        text = "".join(chr(c) for c in input_ids.a[0])
        v = CONTROL.encode([text], self.name, "hf")[0]
        # the states of the tokens differ, their mean is the answer
        n = len(text)
        off = np.arange(n, dtype="<f4") - np.float32((n - 1) / 2)
        scale = np.float32(2.0 ** -14) * np.abs(v).max()
        return types.SimpleNamespace(last_hidden_state=Tensor((v[None, :] + scale * off[:, None])[None].astype("<f8")))


def install_hf():
    import contextlib
    t = types.ModuleType("torch")
    t.Tensor = Tensor
    t.no_grad = contextlib.nullcontext
    t.cuda = types.SimpleNamespace(is_available=lambda: False)
    f = types.ModuleType("transformers")
    f.AutoModel, f.AutoTokenizer = AutoModel, AutoTokenizer
    sys.modules.update(torch=t, transformers=f)


class Picture:
    """PIL.Image.open: the header is read at once, the rest by load()."""

    def __init__(self, path):
        self.f = open(path, "rb")
        try:
            if self.f.read(4) != b"IMG:":
                raise OSError("cannot identify image file %r" % path)
        except BaseException:
            self.f.close()
            raise

    def load(self):
        with self.f:
            return self.f.read().decode()


class ClipModel:
    def encode_image(self, t):
        return Tensor(CONTROL.encode([t.a[0]], "clip", "img"))


class ClipInput:
    def __init__(self, a):
        self.a = a

    def unsqueeze(self, dim):
        return ClipInput([self.a])

    def to(self, device):
        return self


class image_libs:
    """The libraries of image feature extraction, while an operation uses them."""

    def __init__(self, missing=None):
        self.missing = missing

    def __enter__(self):
        import contextlib
        clip = types.ModuleType("clip")
        clip.load = lambda name, device=None, **k: (ClipModel(), lambda img: ClipInput(img.load()))
        torch = types.ModuleType("torch")
        torch.Tensor = Tensor
        torch.no_grad = contextlib.nullcontext
        torch.cuda = types.SimpleNamespace(is_available=lambda: False)
        pil = types.ModuleType("PIL")
        pil.Image = types.ModuleType("PIL.Image")
        pil.Image.open = Picture
        new = {"clip": clip, "torch": torch, "PIL": pil, "PIL.Image": pil.Image}
        if self.missing:
            new[self.missing] = None
        self.old = {k: sys.modules.get(k) for k in new}
        sys.modules.update(new)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        return False


class Meter:
    """psutil's process readings during a simulation: every value is unique, readings may be
    slow, fail, or be unavailable."""

    def __init__(self):
        self.reset(None, {})

    def reset(self, env, plan):
        self.env = env
        self.plan = plan            # reading number -> {"sleep", "fail": "memory"/"cpu"}
        self.fail_open = set(plan.get("open", []))
        self.opens = 0
        self.n = 0
        self.readings = []          # [start, end, rss, cpu]; end None while incomplete
        self.errors = []            # times of failed readings
        self.fail_all = False       # end of the run: sampling must have stopped anyway

    def fault(self):
        self.errors.append(self.env.clock.mono)
        self.env.fs.fired["sampler_error"] = self.env.fs.fired.get("sampler_error", 0) + 1
        import psutil
        raise [psutil.NoSuchProcess(1), psutil.AccessDenied(1), OSError(5, "injected"),
               RuntimeError("injected")][self.n % 4]


METER = Meter()


class SimProcess:
    def __init__(self, pid=None):
        m = METER
        if m.env is None:
            return
        m.opens += 1
        if m.opens - 1 in m.fail_open:
            m.n += 1
            m.fault()

    def memory_info(self):
        m = METER
        if m.env is None:
            return types.SimpleNamespace(rss=64 << 20, vms=128 << 20)
        import time
        self.r = [m.env.clock.mono, None, None, None]
        m.readings.append(self.r)
        f = m.plan.get(str(m.n), {})
        m.n += 1
        m.env.log.add("reading", m.n)
        self.f = f
        if f.get("sleep"):
            time.sleep(f["sleep"])
        if m.fail_all or f.get("fail") == "memory":
            m.fault()
        self.r[2] = ((m.n * 37) % 1009 + 1) << 20
        return types.SimpleNamespace(rss=self.r[2], vms=self.r[2] * 2)

    def cpu_percent(self, interval=None):
        m = METER
        if m.env is None:
            return 1.0
        if self.f.get("fail") == "cpu":
            m.fault()
        self.r[3] = float((m.n * 61) % 997)
        self.r[1] = m.env.clock.mono
        return self.r[3]


def install_meter():
    import psutil
    real = psutil.Process
    from .ctx import CTX

    def Process(*a, **k):
        return SimProcess(*a, **k) if CTX.active else real(*a, **k)
    psutil.Process = Process
