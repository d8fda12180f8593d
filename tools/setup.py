"""Nothing to build: the simulator is plain Python and imports /repo's working tree. Fails early if the environment is unusable."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim"))
import runner
out = runner.run(runner.make_plan("C19", "C19", 1), "C19")
assert out.error is None, out.error
print("simulator ready,", out.events, "events in the trial run")
