"""
Which lines of the code under test were executed in simulated jobs (development aid, DST_COVER=directory).

Every job adds the lines it was the first of its lane to reach to a file of its own.
"""
import json
import os
import sys


def install(out, repo):
    from . import world
    mon, seen, tool = sys.monitoring, set(), 3
    root = os.path.join(os.path.realpath(repo), "pyconform")
    known = set()
    os.makedirs(out, exist_ok=True)
    real_run, real_report = world.run_job, world.Sim.report

    def line(code, number):
        if os.path.realpath(code.co_filename).startswith(root):
            seen.add((os.path.relpath(code.co_filename, root), number))
        return mon.DISABLE

    def run_job(*a):
        mon.use_tool_id(tool, "dst")
        mon.register_callback(tool, mon.events.LINE, line)
        mon.set_events(tool, mon.events.LINE)
        return real_run(*a)

    def report(self):
        real_report(self)
        new = seen - known
        if new:
            with world._Real.open(os.path.join(out, "%d.json" % os.getpid()), "w") as f:
                json.dump(sorted(new), f)

    world.run_job, world.Sim.report = run_job, report
