"""P15: buffered secondary streams: window of the last observations strictly before the local time."""
import itertools

import checks.P14_stream_sync as S

BOUNDS = (
    "1 local stream of 2..4 (quick) / 3..5 (thorough) symbolic times, 1..2 secondary streams of 1..5 (quick) / 1..6 symbolic times, buffer "
    "lengths 1..3 (quick) / 1..4, forward fill on/off, day embedding on/off, buffered and unbuffered streams mixed"
)
ASSUMPTIONS = S.ASSUMPTIONS
META = dict(
    title="Buffered streams deliver the last maxlen past observations, in order",
    statement="With buffer_maxlen set for a secondary stream, what a local step sees of it is a window of exactly maxlen observations: the "
    "last ones whose time is strictly before the (embedded) local time, oldest first, including observations already delivered at earlier "
    "steps, each once, left-padded with the missing value when fewer are available; without ffill an entirely missing window when nothing "
    "new arrived since the previous step, with ffill the previous window.",
    over=["schedules", "histories"],
    quant="all interleavings of local and secondary times, lengths, buffer sizes, ffill and freq settings",
    why="tests check one pair of date ranges at one step",
    files=["src/wax/stream.py", "src/wax/encode.py"],
    mech=[("merge", "src/wax/stream.py"), ("tree_buffer_transform, deque_to_list", "src/wax/stream.py")],
)


def tasks(tier):
    q = tier == "quick"
    out = []
    for ffill, freq in itertools.product((False, True), (False, True)):
        for ml in (1, 2, 3) if q else (1, 2, 3, 4):
            for m in (1, 3, 5) if q else (1, 2, 3, 4, 5, 6):
                out.append(dict(name=f"one-ffill{int(ffill)}-freq{int(freq)}-m{m}-buf{ml}", fn="t_buf",
                                kw=dict(n=4 if q else 5, m=[m], ffill=[ffill], freq=[freq], maxlen=[ml])))
    for (a, b), ml in itertools.product(
        itertools.combinations_with_replacement(list(itertools.product((False, True), (False, True))), 2), ([2, 0], [0, 2], [3, 2])
    ):
        out.append(dict(name=f"two-{int(a[0])}{int(a[1])}-{int(b[0])}{int(b[1])}-buf{ml[0]}{ml[1]}", fn="t_buf",
                        kw=dict(n=2 if q else 3, m=[2, 2] if q else [3, 3], ffill=[a[0], b[0]], freq=[a[1], b[1]], maxlen=ml)))
    return out


def t_buf(T, **kw):
    S.t_sync(T, **kw)
