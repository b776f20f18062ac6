"""values read by configuration files written in Python: V("a")"""
VALUES = {}


def V(name):
    return VALUES[name]
