from hypothesis import strategies as st
from vf import build, drv
from vf.core import Facet, Prop, check

NST = 9


@st.composite
def case(draw):
    start = draw(st.integers(0, NST))
    end = draw(st.one_of(st.just(NST), st.integers(0, NST)))
    if draw(st.integers(0, 9)):
        start, end = min(start, end), max(start, end)
    return {"start": start, "end": end,
            "retry": draw(st.one_of(st.just(-1), st.just(0), st.integers(1, 6), st.integers(7, 300))),
            "present": draw(st.one_of(st.just(15), st.integers(0, 15))),
            "checks": draw(st.lists(st.integers(0, 3), min_size=NST, max_size=NST)),
            "unrolls": draw(st.one_of(st.just(511), st.integers(0, 511))),
            "args": draw(st.integers(0, 511)), "cargs": draw(st.integers(0, 511)),
            # what the steps report, in the order they are called: kind, value, words left on the stack
            "script": draw(st.lists(st.tuples(st.sampled_from("ppppppppnnnnzzftTM"[:draw(st.sampled_from([9, 14, 17, 18]))]),
                                              st.integers(0, 8), st.integers(0, 40)), max_size=draw(st.sampled_from([6, 25, 120]))))}


def model(c):
    """Runs the script against what the engine has to do; gives the requests' words and the trace."""
    start, end, retry = c["start"], c["end"], max(c["retry"], 0)
    script, used, trace, labels = list(c["script"]), [], [], set()
    if start == end:
        return used, trace, 2, labels
    if start > end:
        return used, trace, 0, labels
    pres = c["present"]
    state, depth = start, 0
    tops, tries, visited = {}, [0] * NST, set()

    def nxt(is_gen):
        """result of the next step and the stack words it leaves"""
        if not script:
            return 1, 0
        k, v, a = script.pop(0)
        if k == "M":
            used.append("M:%d" % a)
            return None, a
        if k in "tT" and is_gen:
            used.append("T:%d" % a)
            return "T", a
        d = {"p": 1, "n": -(v % (state + 1)), "z": 0, "f": start - state}.get(k, 1)
        if k == "p" and not is_gen and v > 5:
            d = v  # a validator's value does not matter when positive
        used.append("%d:%d" % (d, a))
        return d, a
    while state < end:
        tops[state] = depth
        d, a = nxt_rec = None, 0
        trace.append("G%d.0:%d" % (state, depth))
        d, a = nxt(True)
        timeout = d == "T"
        if timeout:
            d = start - state
            labels.add("timeout")
        else:
            depth += a
        if d is not None and d > 0 and not timeout and pres & 4:
            cd = depth
            for i in range(c["checks"][state]):
                trace.append("C%d.%d:%d" % (state, i, cd))
                r, a = nxt(False)
                cd += a
                if r is None or r <= 0:
                    d = r
                    labels.add("validator failed")
                    break
        if d is None:
            labels.add("hard error")
            return used, trace, 0, labels
        if d <= 0:
            new = max(start, state + d)
            if state + d < start:
                labels.add("clamped")
            tries[state] += 1
            if retry and tries[state] >= retry:
                labels.add("retry limit")
                return used, trace, 0, labels
            for i in range(state, new, -1):
                if pres & 8 and c["unrolls"] >> i & 1:
                    trace.append("U%d" % i)
            labels.add("back %s" % ("0" if new == state else "1" if new == state - 1 else "more"))
            depth = tops[new]
            state = new
        else:
            tries[state] = 0
            state += 1
    return used, trace, 1, labels


def run_engine(c):
    used, trace, ret, labels = model(c)
    req = "run %d %d %d %d %s %d %d %d " % (c["start"], c["end"], c["retry"], c["present"], "".join(map(str, c["checks"])),
                                          c["unrolls"], c["args"], c["cargs"]) + " ".join(used)
    got = drv.get("engine").tokens(req)
    want = trace + ["R%d.0" % ret]
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        check(False, "from stage %d to %d, retry %d: call %d is %s, expected %s (G stage, C validator, U undone, stack words; R result); "
              "before: %s" % (c["start"], c["end"], c["retry"], i, got[i:i + 3], want[i:i + 3], got[max(0, i - 8):i]))
    return sorted(labels) + (["nontrivial"] if labels else ["straight"]) + ["result:%d" % ret]


PROP = Prop(
    "C29",
    "at least one step or validator of the script did not simply succeed (went back, repeated, timed out, failed hard or reached the retry limit)",
    [Facet("engine", case, run_engine, 24000, 500000, slow=0)],
    "stateful property-based testing: random scripts of stage and validator results against a model of the engine, comparing every call, the stack it finds and the result",
    "Random exploration; scripts of up to 120 results, all stages, retry limits to 300; stages that skip others (results above 1) and results before the first stage are not generated, no stage of the tool gives them.",
    builds=[lambda: build.driver("engine")])
