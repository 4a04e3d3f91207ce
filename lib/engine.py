"""Common machinery: build the library, generate cases with TLC, run them, have TLC judge the recorded traces."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
REPO = os.environ.get("REPO", "/repo")
NPROC = os.cpu_count() or 4


def find_jars():
    jars = [JAR]
    d = os.path.dirname(JAR)
    for n in sorted(os.listdir(d)):
        if n.endswith(".jar") and n != os.path.basename(JAR):
            jars.append(os.path.join(d, n))
    return ":".join(jars)


CP = find_jars()


class Broken(Exception):
    """The machinery itself failed."""


# ---- building ---------------------------------------------------------------------------------
def build(workdir):
    b = os.path.join(workdir, "build")
    os.makedirs(b)
    env = dict(os.environ, REPO=REPO)
    p = subprocess.run(["bash", os.path.join(ROOT, "harness", "build.sh"), b], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(os.path.join(b, "driver")):
        raise Broken("build failed:\n" + p.stdout[-3000:])
    return b


# ---- TLC --------------------------------------------------------------------------------------
def tlc(workdir, name, module, cfg, args=(), env=None, timeout=800, xmx="4g", xss="64m"):
    """Runs TLC on a module of the specification; returns (exit status, output)."""
    d = os.path.join(workdir, name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx" + xmx, "-Xss" + xss, "-cp", CP, "tlc2.TLC",
           "-config", "M.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    out_path = os.path.join(d, "out.txt")
    with open(out_path, "w") as out:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -9
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    with open(out_path, errors="replace") as f:
        return rc, f.read()


def stats(out):
    g = [int(a.replace(",", "")) for a in re.findall(r"([\d,]+) states generated", out)]
    s = [int(b.replace(",", "")) for b in re.findall(r"([\d,]+) distinct states found", out)]
    return (g[-1] if g else 0), (s[-1] if s else 0)


# ---- generating cases ---------------------------------------------------------------------------
def parse_cases(out):
    cases, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"CASE '):
            s = json.loads(line)[5:]
        elif line.startswith("CASE "):
            s = line[5:]
        else:
            continue
        if s not in seen:
            seen.add(s)
            cases.append(json.loads(s))
    return cases


def generate(workdir, name, module, consts, seed=None, num=None, depth=400, timeout=400, limit=None):
    """Histories from the generating specification: random behaviours (num given) or all of them."""
    cfg = "SPECIFICATION Spec\nINVARIANT Emit\n"
    if consts:
        cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, v) for k, v in consts.items())
    if num:
        args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-deadlock", "-workers", "1"]
    else:
        args = ["-deadlock", "-workers", "4"]
    rc, out = tlc(workdir, name, module, cfg, args, timeout=timeout)
    cases = parse_cases(out)
    if rc not in (0, -9) or not cases:
        raise Broken("generator %s failed (%d):\n%s" % (name, rc, "\n".join(l for l in out.splitlines() if "CASE" not in l)[-3000:]))
    g, s = stats(out)
    return cases, max(g, s, len(cases))


# ---- running cases ------------------------------------------------------------------------------
def ints(l):
    if not l:
        return "-"
    out, i = [], 0
    while i < len(l):
        j = i
        while j < len(l) and l[j] == l[i]:
            j += 1
        out.append("%d*%d" % (l[i], j - i) if j - i > 2 else ",".join([str(l[i])] * (j - i)))
        i = j
    return ",".join(out)


def item(x):
    if x[0] in ("B", "E"):
        return x[0]
    return "%s%s:%s" % (x[0], x[1], ints(x[2]))


def render(op):
    c = op[0]
    if c in ("fdump", "sdump"):
        return " ".join(map(str, op[:2]))
    if c == "scap":       # the tree is for the specification
        op = op[:3] + op[4:]
    if c == "srun":
        return " ".join([c, str(op[1])] + [item(x) for x in op[2:]])
    if c == "spair":
        return " ".join([c, str(op[1]), str(op[2])] + [item(x) for x in op[3:]])
    r = []
    for x in op:
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                r.append("".join(x))
            else:
                r.append(ints(x))
        else:
            r.append(str(x))
    return " ".join(r)


# freed and fresh memory is filled with a pattern, so that stale or uninitialised data shows
DRIVER_ENV = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.perturb=165:glibc.malloc.tcache_count=0")


def drive(build_dir, cases, timeout_s=20, mem=1500, procs=None, binary="driver", slow=False):
    """cases: {id: [op...]}; returns {id: [event...]} and the number of cut cases."""
    ids = sorted(cases)
    procs = procs or NPROC
    chunks = [ids[i::procs] for i in range(procs)]
    drv = os.path.join(build_dir, binary)

    def one(chunk):
        if not chunk:
            return ""
        text = "".join("%d %s ;\n" % (i, " ; ".join(render(op) for op in cases[i])) for i in chunk)
        p = subprocess.run([drv, str(timeout_s), str(mem)], input=text.encode(), stdout=subprocess.PIPE, env=DRIVER_ENV)
        if p.returncode != 0:
            raise Broken("driver failed: %d" % p.returncode)
        return p.stdout.decode()

    res, cut = {}, 0
    with ThreadPoolExecutor(procs) as ex:
        for out in ex.map(one, chunks):
            for line in out.splitlines():
                r = json.loads(line)
                ops = cases[r["id"]]
                ev = []
                for op, v in zip(ops, r["res"]):
                    if isinstance(v, dict):
                        if "unsupported" in v or "toobig" in v or "nomem" in v:
                            cut += 1
                            if "unsupported" in v:
                                sys.stderr.write("note: unsupported %s: %s\n" % (v["unsupported"], render(op)[:200]))
                            break
                        if "err" in v:
                            ev.append({"op": op, "k": "err", "v": 0})
                            continue
                        if "exc" in v:
                            ev.append({"op": op, "k": "exc", "v": 0})
                            continue
                    ev.append({"op": op, "k": "ok", "v": v})
                else:
                    if r.get("crash") == "hang" and slow:
                        cut += 1          # operations whose cost is exponential by design
                    elif "crash" in r:
                        n = len(r["res"])
                        op = ops[n] if n < len(ops) else ["teardown"]
                        ev.append({"op": op, "k": "crash-" + r["crash"], "v": 0})
                    elif len(r["res"]) != len(ops):
                        raise Broken("driver lost results of case %s" % r["id"])
                res[r["id"]] = ev
    missing = [i for i in ids if i not in res]
    if missing:
        raise Broken("driver lost cases %s" % missing[:5])
    return res, cut


# ---- judging --------------------------------------------------------------------------------------
TRACE_CFG = "SPECIFICATION Spec\nINVARIANTS Conforms TableAgrees DeadIsDead CountsAgree\nVIEW View\n"


def judge(workdir, name, traces, timeout=800, workers=2, xmx="6g"):
    """traces: list of (id, events).  Returns a dictionary: ok, id, what, states, transitions."""
    d = os.path.join(workdir, name)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "trace.ndjson")
    with open(path, "w") as f:
        for i, ev in traces:
            f.write(json.dumps({"id": i, "ev": ev}, separators=(",", ":")) + "\n")
    rc, out = tlc(workdir, name, "PireTrace", TRACE_CFG, ["-workers", str(workers)], env={"TRACE": path}, timeout=timeout, xmx=xmx)
    g, s = stats(out)
    os.unlink(path)
    r = {"states": s, "transitions": g, "ok": False, "id": None, "what": "", "timeout": rc == -9}
    if rc == 0:
        r["ok"] = True
        return r
    if rc == -9:
        return r
    m = re.search(r"Invariant (\w+) is violated", out)
    dead = "Deadlock reached" in out
    tids = re.findall(r"^/\\ tid = (\d+)", out, re.M)
    pos = re.findall(r"^/\\ pos = (\d+)", out, re.M)
    if (m or dead) and tids:
        t = int(tids[-1])
        r["id"], ev = traces[t - 1]
        p = int(pos[-1])
        words = re.findall(r"^/\\ word = (.*?)(?=^/\\|^$)", out, re.M | re.S)
        bads = re.findall(r'^/\\ bad = "(.*)"', out, re.M)
        what = "deadlock" if dead else m.group(1)
        if m and m.group(1) == "Conforms":
            what = bads[-1]
            p -= 1
        elif m:
            what += " on text " + re.sub(r"\s+", " ", words[-1]) if words else ""
        op = ev[p - 1]["op"] if 0 < p <= len(ev) else None
        r["what"], r["op"], r["pos"] = what, op, p
        return r
    raise Broken("TLC failed on traces (%d):\n%s" % (rc, out[-3000:]))


# ---- known findings ----------------------------------------------------------------------------------
def known_findings(prop):
    """Findings recorded and not repaired: lines "known: property=<id> <what fails> :: <case as JSON>"."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) (.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"what": m.group(2), "case": json.loads(m.group(3))})
    return out


def corrupted(ev):
    """The history with one recorded result changed, or None if there is nothing suitable in it."""
    ev = json.loads(json.dumps(ev))
    for e in ev:
        if e["k"] != "ok":
            continue
        c, v = e["op"][0], e["v"]
        if c in ("fparse", "fparseb", "lexparse", "scompile", "ssave", "inline"):
            e["k"] = "err"
            return ev
    return None
