"""Library classes described to the analysis as Python source: it is interpreted like the code of the repository, so
their state takes part in the journal, the facts and the effect analysis."""

SRC = {
    "weakref": '''
class ref:
    def __init__(self, o, callback=None):
        self.__o = o
    def __call__(self):
        return self.__o


class WeakMethod(ref):
    pass


class WeakValueDictionary:
    def __init__(self, other=None, **kw):
        self.data = dict()
        if other is not None:
            self.data.update(other)
        self.data.update(kw)
    def __getitem__(self, k):
        return self.data[k]
    def __setitem__(self, k, v):
        self.data[k] = v
    def __delitem__(self, k):
        del self.data[k]
    def __contains__(self, k):
        return k in self.data
    def __len__(self):
        return len(self.data)
    def __iter__(self):
        return iter(self.data)
    def get(self, k, default=None):
        return self.data.get(k, default)
    def setdefault(self, k, default=None):
        return self.data.setdefault(k, default)
    def pop(self, k, *a):
        return self.data.pop(k, *a)
    def keys(self):
        return self.data.keys()
    def values(self):
        return self.data.values()
    def items(self):
        return self.data.items()
    def clear(self):
        self.data.clear()
    def update(self, other):
        self.data.update(other)


class WeakKeyDictionary(WeakValueDictionary):
    pass


class WeakSet:
    def __init__(self, data=None):
        self.data = set()
        for x in data or ():
            self.data.add(x)
    def add(self, x):
        self.data.add(x)
    def discard(self, x):
        self.data.discard(x)
    def remove(self, x):
        self.data.remove(x)
    def __contains__(self, x):
        return x in self.data
    def __len__(self):
        return len(self.data)
    def __iter__(self):
        return iter(self.data)
    def clear(self):
        self.data.clear()
''',
    "contextvars": '''
class Token:
    MISSING = object()
    def __init__(self, var, old):
        self.var, self.old_value = var, old


class ContextVar:
    def __init__(self, name, *, default=Token.MISSING):
        self.name = name
        self.__default = default
        self.__value = Token.MISSING
    def __class_getitem__(cls, item):
        return cls
    def get(self, *default):
        if self.__value is not Token.MISSING:
            return self.__value
        if default:
            return default[0]
        if self.__default is not Token.MISSING:
            return self.__default
        raise LookupError(self)
    def set(self, value):
        t = Token(self, self.__value)
        self.__value = value
        return t
    def reset(self, token):
        self.__value = token.old_value
''',
    "threading": '''
class local:
    pass
''',
    "types": '''
class SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
''',
    "queue": '''
class SimpleQueue:
    def __init__(self, maxsize=0):
        self.queue = []
    def put(self, x, block=True, timeout=None):
        self.queue.append(x)
    put_nowait = put
    def get(self, block=True, timeout=None):
        return self.queue.pop(0)
    get_nowait = get
    def empty(self):
        return not self.queue
    def qsize(self):
        return len(self.queue)


class Queue(SimpleQueue):
    pass


class LifoQueue(SimpleQueue):
    def get(self, block=True, timeout=None):
        return self.queue.pop()
    get_nowait = get
''',
    "collections": '''
class UserDict:
    def __init__(self, dict=None, /, **kw):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kw:
            self.update(kw)
    def __len__(self):
        return len(self.data)
    def __getitem__(self, k):
        if k in self.data:
            return self.data[k]
        if hasattr(self, "__missing__"):
            return self.__missing__(k)
        raise KeyError(k)
    def __setitem__(self, k, v):
        self.data[k] = v
    def __delitem__(self, k):
        del self.data[k]
    def __iter__(self):
        return iter(self.data)
    def __contains__(self, k):
        return k in self.data
    def get(self, k, default=None):
        if k in self:
            return self[k]
        return default
    def keys(self):
        return self.data.keys()
    def values(self):
        return self.data.values()
    def items(self):
        return self.data.items()
    def clear(self):
        self.data.clear()
    def pop(self, k, *a):
        return self.data.pop(k, *a)
    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]
    def update(self, other=(), /, **kw):
        for k, v in dict(other, **kw).items():
            self[k] = v
    def copy(self):
        c = self.__class__()
        c.data.update(self.data)
        return c


class UserList:
    def __init__(self, initlist=None):
        self.data = []
        if initlist is not None:
            self.data = list(initlist)
    def __len__(self):
        return len(self.data)
    def __getitem__(self, i):
        return self.data[i]
    def __setitem__(self, i, v):
        self.data[i] = v
    def __delitem__(self, i):
        del self.data[i]
    def __iter__(self):
        return iter(self.data)
    def __contains__(self, x):
        return x in self.data
    def append(self, x):
        self.data.append(x)
    def insert(self, i, x):
        self.data.insert(i, x)
    def pop(self, i=-1):
        return self.data.pop(i)
    def remove(self, x):
        self.data.remove(x)
    def clear(self):
        self.data.clear()
    def extend(self, other):
        self.data.extend(other)
    def index(self, x):
        return self.data.index(x)
    def count(self, x):
        return self.data.count(x)
    def reverse(self):
        self.data.reverse()


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]
    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)
    def get(self, k, default=None):
        return self[k] if k in self else default
    def __contains__(self, k):
        return any(k in m for m in self.maps)
    def __setitem__(self, k, v):
        self.maps[0][k] = v
    def __delitem__(self, k):
        del self.maps[0][k]
    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict.fromkeys(m))
        return iter(d)
    def __len__(self):
        return len(list(iter(self)))
    def new_child(self, m=None):
        return self.__class__({} if m is None else m, *self.maps)
''',
}
NAMES = {m: set(l.split()[1].split("(")[0].rstrip(":") for l in s.splitlines() if l.startswith("class "))
         for m, s in SRC.items()}


def lookup(ip, mod, name):
    if name not in NAMES.get(mod, ()):
        return None
    m = ip.add_source("_library_" + mod, SRC[mod])
    return m.ns.vars.get(name)
