"""stand-in for the Qt widget of vtk, which needs Qt; put in its place by install()"""
import sys
import types


def install():
    m = types.ModuleType("vtk.qt.QVTKRenderWindowInteractor")
    m.QVTKRenderWindowInteractor = type("QVTKRenderWindowInteractor", (), {"__init__": lambda self, *a, **k: None})
    q = types.ModuleType("vtk.qt")
    q.__path__ = []
    q.QVTKRenderWindowInteractor = m
    try:
        import vtk
    except ImportError:
        vtk = types.ModuleType("vtk")
        vtk.__path__ = []
        sys.modules["vtk"] = vtk
    vtk.qt = q
    sys.modules["vtk.qt"] = q
    sys.modules["vtk.qt.QVTKRenderWindowInteractor"] = m
