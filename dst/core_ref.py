"""late binding to dst.core (import cycles)"""
import sys


def world():
    m = sys.modules.get('dst.core')
    return m.CUR if m is not None else None


def sched():
    w = world()
    return w.sched if w is not None else None
