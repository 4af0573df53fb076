"""AwkwardForth: reading inputs and writing outputs."""
from props import forth


def case(rng, i):
    return forth.session(rng, True, rng.random() < 0.2)
