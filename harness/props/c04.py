"""AwkwardForth: control flow, stack, variables, sessions."""
from props import forth


def case(rng, i):
    return forth.session(rng, False, rng.random() < 0.25)


replay = forth.replay
