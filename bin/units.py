"""The units: which function of /repo is verified against which contract."""

PROPERTIES = {}
UNITS = []

COMMON_TRUSTED = [
    'cbmc/goto-cc/goto-instrument 6.11.0 (front end, DFCC contract library, SAT back end)',
    'lib/vp_stubs.h and the stubs at the head of each unit: stand-ins for nginx core functions whose sources are not installed',
    'gcc x86-64 data model (LP64, little endian), nginx configured with --with-debug as in /opt/vp/build.sh',
]
COMMON_ASSUMPTIONS = [
    'nginx core allocation functions return NULL or a fresh object of the requested size',
    'ngx_log_error_core has no effect on verified state',
    'single-threaded event loop: no concurrent mutation during a call',
    'signed-overflow and shift-range checks are off unless a unit turns them on (machine arithmetic itself is bit-precise, wrap-around included)',
]


def prop(pid, **kw):
    PROPERTIES[pid] = kw


def unit(prop_id, name, src, harness, functions, enforce=(), **kw):
    UNITS.append(dict(prop=prop_id, name=name, src=src, harness=harness,
                      functions=list(functions), enforce=list(enforce), **kw))


import importlib, os, glob
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), 'defs', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
