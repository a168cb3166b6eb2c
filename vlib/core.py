"""Running the program under test and TLC, scratch space, evidence."""
import fcntl, atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
NOBODY = 65534
CPUS = max(2, os.cpu_count() or 2)
TLA = "/opt/veriftools/tla"


class ToolError(Exception):
    """The check itself could not do its work: exit 2, never a verdict."""


# ---------------------------------------------------------------- scratch

_scratch = None


_once = threading.RLock()


def scratch():
    global _scratch
    with _once:
        return _make_scratch()


def _make_scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="reqtrace-verif-")
        os.chmod(_scratch, 0o755)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_counter = [0]
_counter_lock = threading.Lock()


def new_dir(name="d"):
    with _counter_lock:
        _counter[0] += 1
        n = _counter[0]
    d = os.path.join(scratch(), f"{name}{n}")
    os.mkdir(d)
    own(d)
    return d


def own(path):
    if os.geteuid() == 0:
        os.chown(path, NOBODY, NOBODY, follow_symlinks=False)


def drop_dir(d):
    assert os.path.abspath(d).startswith(scratch() + os.sep)
    for root, dirs, _files in os.walk(d):
        for x in dirs:
            p = os.path.join(root, x)
            if not os.path.islink(p):
                os.chmod(p, 0o755)
    shutil.rmtree(d, ignore_errors=True)


def write_file(path, data):
    """Write data (str or bytes) below a scratch directory, readable for the program."""
    if isinstance(data, str):
        data = data.encode("utf-8", "surrogatepass")
    parent = os.path.dirname(path)
    missing = []
    while not os.path.isdir(parent):
        missing.append(parent)
        parent = os.path.dirname(parent)
    for p in reversed(missing):
        os.mkdir(p)
        own(p)
    with open(path, "wb") as f:
        f.write(data)
    own(path)


# ---------------------------------------------------------------- the program

_binary = None


def build():
    """Build the program from the current tree of /repo; returns a private copy of it."""
    with _once:
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".one-at-a-time"), "w") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            return _build()


def _build():
    global _binary
    if _binary:
        return _binary
    t0 = time.time()
    # the program is rebuilt whatever the timestamps of its sources say
    fp = os.path.join(BUILD, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for e in os.listdir(fp):
            if e.startswith("reqtrace-"):
                shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=BUILD, CARGO_PROFILE_DEV_OPT_LEVEL="1",
               CARGO_PROFILE_DEV_DEBUG="0", CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "reqtrace",
                        "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                       env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise ToolError("building /repo failed:\n" + p.stdout.decode(errors="replace")[-4000:])
    src = os.path.join(BUILD, "debug", "reqtrace")
    dst = os.path.join(scratch(), "reqtrace")
    shutil.copyfile(src, dst)
    os.chmod(dst, 0o755)
    _binary = dst
    log(f"built in {time.time() - t0:.1f}s")
    return _binary


_stats = {"cli_runs": 0}
_late = []                  # runs that did not end in time

# a program that has run wild must not take the machine with it
LIMITS = ["/bin/sh", "-c", 'ulimit -v 2000000; ulimit -f 1000000; exec "$0" "$@"']


def patience():
    n = len(_late)
    return 90 if n < 3 else 20 if n < 12 else 3


def run_cli(cwd, args, timeout=None, extra_env=None, log_level="off"):
    """Run the program as an unprivileged user. Returns (rc, stdout, stderr) as (int, bytes, bytes);
    rc is negative when it was killed by a signal, and None when it did not end in time."""
    env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": cwd,
           "REQTRACE_LOG": log_level, "RUST_BACKTRACE": "0"}
    if extra_env:
        env.update(extra_env)
    kw = {}
    if os.geteuid() == 0:
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    with _counter_lock:
        _stats["cli_runs"] += 1
    try:
        p = subprocess.run(LIMITS + [build()] + list(args), cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout or patience(), **kw)
    except subprocess.TimeoutExpired:
        _late.append(1)
        return None, b"", b"timeout"
    return p.returncode, p.stdout, p.stderr


def parallel(fn, items, workers=None):
    items = list(items)
    if len(items) <= 1:
        return [fn(x) for x in items]
    with ThreadPoolExecutor(workers or CPUS) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, timeout=800, workers=None, heap="8g", extra=()):
    """Run TLC on spec/<module>.tla with the text cfg. Returns a dict with the statistics, the
    printed @@ records and the complete output; ok is False if TLC found an error."""
    d = new_dir("tlc")
    cfgfile = os.path.join(d, module + ".cfg")
    with open(cfgfile, "w", encoding="utf-8") as f:
        f.write(cfg)
    cmd = ["timeout", "-k", "5", str(int(timeout)), "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
           "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", f"-DTLA-Library={SPEC}",
           "-Djava.io.tmpdir=" + d,
           "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers or CPUS),
           "-noGenerateSpecTE", "-config", cfgfile, *extra, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode("utf-8", "replace")
    if os.environ.get("VERIF_DEBUG"):
        print(out)
    recs = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            # PrintT shows the string with TLA+ escapes
            recs.append(json.loads(unescape(line[3:-1])))
        elif line.startswith("@@"):
            recs.append(json.loads(line[2:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    res = {"module": module, "rc": p.returncode, "out": out, "recs": recs, "wall": time.time() - t0,
           "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0}
    res["ok"] = p.returncode == 0 and "No error has been found" in out and m is not None
    shutil.rmtree(d, ignore_errors=True)
    return res


def unescape(s):
    return re.sub(r"\\(.)", r"\1", s)


def tlc_model(module, cfg, what, **kw):
    """A run on the specification alone: an error in it is an error of the check."""
    r = tlc(module, cfg, **kw)
    if not r["ok"]:
        raise ToolError(f"TLC rejects the specification ({module}, {what}):\n" + r["out"][-6000:])
    log(f"TLC {module} ({what}): {r['distinct']} states, {r['wall']:.1f}s")
    return r


def log(msg):
    print("[check] " + msg, file=sys.stderr, flush=True)
