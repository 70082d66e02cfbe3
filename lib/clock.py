"""Virtual time: the clocks of the time module run ahead according to a plan.

Has to be imported before the code under test. Without a plan, time is real.
"""
import time

REAL = {
    name: getattr(time, name)
    for name in (
        "perf_counter",
        "perf_counter_ns",
        "monotonic",
        "monotonic_ns",
        "time",
        "time_ns",
    )
}

offset_ns = 0
# Called for each reading of a clock, returns the number of ns that have passed
plan = None
frozen_ns = None
reads = 0


def install():
    def make(name, real):
        ns = name.endswith("_ns")

        def now():
            global offset_ns, reads
            if plan is None:
                return real() + (offset_ns if ns else offset_ns / 1e9)
            reads += 1
            offset_ns += plan()
            # No real time passes while there's a plan
            value = base[name] + offset_ns
            return value if ns else value / 1e9

        now.__name__ = name
        return now

    for name, real in REAL.items():
        setattr(time, name, make(name, real))


base = {}


def start(new_plan):
    global plan
    for name in REAL:
        ns_name = name if name.endswith("_ns") else f"{name}_ns"
        base[name] = REAL[ns_name]()
    plan = new_plan


def stop():
    """Back to real time (that never runs backwards)"""
    global plan
    plan = None


def real():
    return REAL["perf_counter"]()
