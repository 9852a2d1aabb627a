"""Stand-in for matplotlib: records what is drawn into which axes."""
import types
import numpy

drawn = []      # axes in the order of creation


class Any:
    """Takes every call and attribute and does nothing."""
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Any()

    def __call__(self, *a, **k):
        return Any()


class Axes(Any):
    def __init__(self, projection=None):
        self.lines, self.meshes, self.title, self.labels, self.scale, self.bars = [], [], None, {}, 'linear', []
        self.projection = projection
        drawn.append(self)

    def plot(self, *a, **k):
        self.lines.append((a, k))
        return [Any()]

    def semilogy(self, *a, **k):
        self.scale = 'log'
        return self.plot(*a, **k)

    def set_yscale(self, s, **k):
        self.scale = s

    def pcolormesh(self, *a, **k):
        self.meshes.append((a, k))
        m = Any()
        m.owner = self
        return m

    def set_title(self, s, **k):
        self.title = s

    def set(self, **k):
        self.labels.update({n: v for n, v in k.items() if n in ('xlabel', 'ylabel')})
        if 'title' in k:
            self.title = k['title']
        if 'yscale' in k:
            self.scale = k['yscale']

    def set_ylabel(self, s, **k):
        self.labels['ylabel'] = s

    def set_xlabel(self, s, **k):
        self.labels['xlabel'] = s


class Figure(Any):
    def subplots(self, nrows=1, ncols=1, squeeze=True, subplot_kw=None, **k):
        a = numpy.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                a[i, j] = Axes((subplot_kw or {}).get('projection'))
        if squeeze:
            return a[0, 0] if a.size == 1 else a.squeeze()
        return a

    def add_subplot(self, *a, projection=None, **k):
        return Axes(projection)

    def colorbar(self, pc=None, ax=None, label='', **k):
        (ax or pc.owner).bars.append(label)
        return Any()


def figure(*a, **k):
    return Figure()


def subplots(nrows=1, ncols=1, *, figsize=None, **k):
    f = Figure()
    return f, f.subplots(nrows, ncols, **{n: v for n, v in k.items() if n in ('squeeze', 'subplot_kw')})


def colorbar(pc=None, ax=None, **k):
    return Figure().colorbar(pc, ax, **k)


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Any()


plt = Module('matplotlib.pyplot')
plt.subplots, plt.figure, plt.colorbar = subplots, figure, colorbar
mod = Module('matplotlib')
mod.pyplot = plt


def get(name, fromlist):
    """Result of importing a part of matplotlib."""
    if not fromlist:
        return mod
    m = mod
    for part in name.split('.')[1:]:
        m = getattr(m, part)
    return m
