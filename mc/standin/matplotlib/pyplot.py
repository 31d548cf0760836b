import json


def plain(x):
    if hasattr(x, "tolist"):
        x = x.tolist()
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, range)):
        return [plain(v) for v in x]
    return x if isinstance(x, (int, float, str, bool)) or x is None else repr(type(x))


class Recorder:
    """any method is accepted and recorded"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*a, **k):
            self.calls.append([name, plain(a), plain(k)])
            return [Recorder()] if name == "plot" else Recorder()
        return call


class Axes(Recorder):
    def get_ylim(self):
        return (-1.0, 1.0)

    get_xlim = get_ylim

    def cla(self):
        self.calls = []

    clear = cla


class Figure(Recorder):
    def __init__(self):
        super().__init__()
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    def subplots(self, nrows=1, ncols=1, **k):
        ax = [self.add_subplot() for _ in range(nrows * ncols)]
        if nrows == 1 and ncols == 1:
            return ax[0]
        if nrows == 1 or ncols == 1:
            return ax
        return [ax[i * ncols:(i + 1) * ncols] for i in range(nrows)]

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    def clf(self, *a, **k):
        self.axes, self.calls = [], []

    clear = clf

    def savefig(self, path, *a, **k):
        with open(path, "w") as f:
            json.dump({"figure": self.calls, "axes": [x.calls for x in self.axes]}, f)


_figs, _cur = {}, [None]


def figure(num=None, **k):
    if num is None:
        num = max([n for n in _figs if isinstance(n, int)] + [0]) + 1
    _cur[0] = num
    return _figs.setdefault(num, Figure())


def gcf():
    return _figs[_cur[0]] if _cur[0] in _figs else figure()


def gca():
    return gcf().gca()


def subplots(nrows=1, ncols=1, num=None, figsize=None, **k):
    f = figure(num)
    return f, f.subplots(nrows, ncols)


def clf():
    gcf().clf()


def close(x=None):
    if x == "all":
        _figs.clear()
    else:
        for n in [n for n, f in _figs.items() if f is x or n == x or (x is None and n == _cur[0])]:
            del _figs[n]
    _cur[0] = max([n for n in _figs if isinstance(n, int)], default=None)


def savefig(path, *a, **k):
    gcf().savefig(path)


def suptitle(*a, **k):
    return gcf().suptitle(*a, **k)


def subplots_adjust(*a, **k):
    return gcf().subplots_adjust(*a, **k)


def tight_layout(*a, **k):
    return gcf().tight_layout(*a, **k)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return getattr(gca(), name)
