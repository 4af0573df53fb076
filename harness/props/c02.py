from props.builder import replay, session


def case(rng, i):
    return session(rng, rng.choice([6, 10, 20, 40]), 0.3, clear=rng.random() < 0.3, app=rng.random() < 0.3, wrong=0.01)
