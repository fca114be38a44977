"""development aid: VERIF_COV=DIR records which lines of reagent/ a check executes (sys.monitoring, each line once)"""
import os
import sys

SEEN = set()


def start():
    m = sys.monitoring
    m.use_tool_id(3, "verifcov")

    def line(code, no):
        f = code.co_filename
        if "/reagent/" in f:
            SEEN.add((f.split("/reagent/", 1)[1], no))
        return m.DISABLE

    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)


def dump():
    if os.environ.get("VERIF_COV"):
        with open(os.path.join(os.environ["VERIF_COV"], "%d.txt" % os.getpid()), "w") as f:
            for p, n in sorted(SEEN):
                f.write("%s %d\n" % (p, n))
