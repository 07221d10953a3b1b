"""Strategy helpers."""
from hypothesis import strategies as st


def weighted(*pairs):
    """weighted((3, a), (1, b)): a three times as often as b. (one_of() drops repeated strategies and
    flattens nested ones, so repetition gives no weight there.)"""
    idx = st.sampled_from([i for i, (w, _) in enumerate(pairs) for _ in range(w)])
    options = [s for _, s in pairs]

    @st.composite
    def pick(draw):
        return draw(options[draw(idx)])
    return pick()
