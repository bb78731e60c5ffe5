"""covrun.py REPO OUT DRIVER ARGS: run a driver, record the lines of REPO's modules it executes."""
import sys, os, json, runpy
REPO, OUT, drv = sys.argv[1:4]
hit = {}
M = sys.monitoring
M.use_tool_id(M.COVERAGE_ID, 'cov')


def line(code, ln):
    if code.co_filename.startswith(REPO + '/'):
        hit.setdefault(os.path.basename(code.co_filename), set()).add(ln)
    return M.DISABLE


M.register_callback(M.COVERAGE_ID, M.events.LINE, line)
M.set_events(M.COVERAGE_ID, M.events.LINE)


def save():
    json.dump({k: sorted(v) for k, v in hit.items()}, open(OUT, 'w'))


real = os._exit


def ex(rc):
    save()
    real(rc)


os._exit = ex
sys.argv = [drv] + sys.argv[4:]
sys.path.insert(0, os.path.dirname(os.path.abspath(drv)))
try:
    runpy.run_path(drv, run_name='__main__')
finally:
    save()
