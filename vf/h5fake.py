"""in-memory stand-in for the part of h5py the stores use (symbolic runs only;
concrete replays use the real h5py on a scratch directory)"""
import numpy as np

from . import symnp


class Attrs(dict):
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, np.array(v) if isinstance(v, (list, tuple)) else v)


class Dataset:
    def __init__(self, data, dtype=None):
        if isinstance(data, np.ndarray):
            data = data.copy()
        self._d = data
        self.attrs = Attrs()

    def __getitem__(self, k):
        v = self._d[k]
        return v.copy() if isinstance(v, np.ndarray) else v

    def __setitem__(self, k, v):
        self._d[k] = v

    shape = property(lambda s: s._d.shape)
    dtype = property(lambda s: s._d.dtype)

    def __len__(self):
        return len(self._d)


class Group:
    def __init__(self):
        self._c = {}
        self.attrs = Attrs()

    def _walk(self, path, make=False):
        g = self
        for p in [x for x in path.split("/") if x]:
            if p not in g._c:
                if not make:
                    raise KeyError(path)
                g._c[p] = Group()
            g = g._c[p]
        return g

    def __getitem__(self, path):
        return self._walk(path)

    def __contains__(self, path):
        try:
            self._walk(path)
            return True
        except KeyError:
            return False

    def __delitem__(self, path):
        parts = [x for x in path.split("/") if x]
        del self._walk("/".join(parts[:-1]))._c[parts[-1]]

    def keys(self):
        return self._c.keys()

    def items(self):
        return self._c.items()

    def __iter__(self):
        return iter(self._c)

    def __len__(self):
        return len(self._c)

    def create_group(self, path):
        if path in self:
            raise ValueError("name already exists")
        return self._walk(path, make=True)

    def require_group(self, path):
        return self._walk(path, make=True)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        parts = [x for x in name.split("/") if x]
        g = self._walk("/".join(parts[:-1]), make=True)
        if parts[-1] in g._c:
            raise ValueError("name already exists")
        if data is None:
            data = symnp.CREATE["zeros"](shape, dtype or float)
        g._c[parts[-1]] = Dataset(data)
        return g._c[parts[-1]]


FILES = {}


class _File:
    def __init__(self, name, mode="r", **k):
        if mode == "w":
            FILES[name] = Group()
        elif name not in FILES:
            if mode in ("r", "r+"):
                raise OSError("no such file " + str(name))
            FILES[name] = Group()
        self._g = FILES[name]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __getattr__(self, k):
        return getattr(self._g, k)

    def __getitem__(self, k):
        return self._g[k]

    def __delitem__(self, k):
        del self._g[k]

    def __contains__(self, k):
        return k in self._g

    def __iter__(self):
        return iter(self._g)


class H5:
    File = _File
    Group = Group
    Dataset = Dataset


h5py = H5()
