"""The DARM binding is not installed; the modules that import it are otherwise usable"""
import sys
import types


def install():
    if 'libs.darm' not in sys.modules:
        try:
            import libs.darm          # noqa
        except Exception:
            m = types.ModuleType('libs.darm')
            m.darm = types.ModuleType('darm')
            sys.modules['libs.darm'] = m
