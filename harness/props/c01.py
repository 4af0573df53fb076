from props.builder import replay, session, from_iter


def case(rng, i):
    if i % 4 == 0:
        return from_iter(rng)
    return session(rng, rng.choice([4, 8, 8, 15, 15, 30, 30, 30, 120]), 0.05)
