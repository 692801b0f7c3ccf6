"""Recording stand-in for the drawing library `vedo`, which is not installed here. It draws
nothing: it keeps what it was asked to draw, what is visible, and the buttons and sliders
offered, so that a monitor can press them and look at the scene."""

LAST = []          # every Plotter opened since the list was emptied
SCRIPT = [None]    # what the person in front of the window does, called with the Plotter


class Quiet:
    """accepts any call that only concerns looks"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self


class Bar(Quiet):
    def __init__(self):
        self.visible = True

    def VisibilityOff(self):
        self.visible = False
        return self

    def VisibilityOn(self):
        self.visible = True
        return self


class Actor(Quiet):
    def __init__(self, *args, **kw):
        self.args = args
        self.kw = kw
        self.visible = True
        self.scalars = None
        self.limits = (None, None)
        self.scalarbar = None
        self.setup(*args, **kw)

    def setup(self, *args, **kw):
        pass

    def off(self):
        self.visible = False
        return self

    def on(self):
        self.visible = True
        return self

    VisibilityOff, VisibilityOn = off, on

    def cmap(self, name, scalars=None, *a, vmin=None, vmax=None, **kw):
        self.scalars = None if scalars is None else [float(v) for v in scalars]
        self.limits = (vmin, vmax)
        return self

    def addScalarBar(self, *a, **kw):
        self.scalarbar = Bar()
        return self

    add_scalarbar = addScalarBar


def xyz(p):
    x, y, z = p
    return float(x), float(y), float(z)


class Points(Actor):
    def setup(self, pts=(), *a, **kw):
        self.pts = [xyz(p) for p in pts]


class Lines(Actor):
    def setup(self, starts=(), ends=None, *a, **kw):
        rows = starts if ends is None else list(zip(starts, ends))
        self.segments = []
        for row in rows:
            p, q = row
            self.segments.append((xyz(p), xyz(q)))


class Line(Actor):
    def setup(self, p0, p1=None, *a, **kw):
        p, q = p0 if p1 is None else (p0, p1)
        self.segments = [(xyz(p), xyz(q))]


class Arrows(Lines):
    pass


class Mesh(Actor):
    def setup(self, what=((), ()), *a, **kw):
        verts, faces = what
        self.pts = [xyz(p) for p in verts]
        self.faces = [tuple(int(v) for v in f) for f in faces]
        if any(v < 0 or v >= len(self.pts) for f in self.faces for v in f):
            raise IndexError("a face names a vertex that is not there")


class Cone(Actor):
    def setup(self, pos=(0, 0, 0), r=1.0, height=3.0, axis=(0, 0, 1), *a, **kw):
        self.pos, self.r, self.height, self.axis = xyz(pos), float(r), float(height), xyz(axis)


class Text2D(Actor):
    def setup(self, txt="", *a, **kw):
        self.txt = str(txt)


class Button(Quiet):
    def __init__(self, fnc, states):
        self.fnc = fnc
        self.states = list(states)
        self.at = 0

    def status(self, s=None):
        if s is not None:
            self.at = self.states.index(s) if isinstance(s, str) else int(s)
            return self
        return self.states[self.at]

    def switch(self):
        self.at = (self.at + 1) % len(self.states)
        return self


class Slider(Quiet):
    def __init__(self, fnc, xmin, xmax, value, title):
        self.fnc, self.xmin, self.xmax, self.title = fnc, xmin, xmax, title
        self.value = xmin if value is None else value

    def GetRepresentation(self):
        return self

    def GetValue(self):
        return self.value


def flat(things):
    for t in things:
        if isinstance(t, (list, tuple)):
            yield from flat(t)
        elif t is not None:
            yield t


class Plotter(Quiet):
    def __init__(self, *a, **kw):
        self.actors, self.buttons, self.sliders = [], [], []
        self.shows = 0
        self.cameras = []
        LAST.append(self)

    def addButton(self, fnc, states=("On", "Off"), *a, **kw):
        b = Button(fnc, states)
        self.buttons.append(b)
        return b

    add_button = addButton

    def addSlider2D(self, sliderfunc, xmin, xmax, value=None, *a, title="", **kw):
        s = Slider(sliderfunc, xmin, xmax, value, title)
        self.sliders.append(s)
        return s

    add_slider = addSlider2D

    def add(self, *things, **kw):
        self.actors += [t for t in flat(things) if not any(t is x for x in self.actors)]
        return self

    __iadd__ = add

    def remove(self, *things, **kw):
        gone = list(flat(things))
        self.actors = [x for x in self.actors if not any(x is t for t in gone)]
        return self

    def show(self, *things, **kw):
        self.shows += 1
        if isinstance(kw.get("camera"), dict):
            self.cameras.append(kw["camera"])
        if things:
            self.actors = []
            self.add(*things)
        return self

    def interactive(self, *a, **kw):
        if SCRIPT[0]:
            SCRIPT[0](self)
        return self


def printc(*a, **kw):
    pass


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return type(name, (Actor,), {})
