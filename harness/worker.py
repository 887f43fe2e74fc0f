"""Replays scenarios (one JSON per line on stdin) against the real code and answers with recorded events."""
import importlib, json, os, sys, traceback, signal
prop, wdir = sys.argv[1], sys.argv[2]
out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)          # prints of the library go to the log
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(wdir)
try:
    import common
    mod = importlib.import_module('props.' + prop.lower())
except BaseException:
    out.write(json.dumps(dict(machine=traceback.format_exc())) + '\n'); out.flush()
    sys.exit(0)
for line in sys.stdin:
    sc = json.loads(line)
    try:
        ev = mod.run(sc)
        ans = json.dumps(dict(ev=ev))
    except common.Observed as e:       # the real code raised where the scenario expected an answer
        ans = json.dumps(dict(ev=e.ev + [dict(op='error', err=e.text)]))
    except Exception as e:             # what the code returned could not be recorded: an observation too
        traceback.print_exc()
        ans = json.dumps(dict(ev=[dict(op='error', err='unrecordable: ' + traceback.format_exc()[-600:])]))
    sys.stdout.flush()
    out.write(ans + '\n'); out.flush()
