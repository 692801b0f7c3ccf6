from vedo import Actor


def histogram(*a, **kw):
    return Actor()
