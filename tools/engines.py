"""Runs the deciding engines and turns their output into results."""
import json, os, re, resource, shutil, signal, struct, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CheckError(Exception):
    pass


def known_findings(prop):
    """Keys of recorded findings that were not repaired."""
    out = []
    for l in open(ROOT + "/known-findings.txt"):
        m = re.match(r"known: property=(\S+) key=<(.*?)>", l)
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


def sh(cmd, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, "", ""


# ---------------------------------------------------------------- symx

SYMX = ROOT + "/target/symx/release/symx"
LIMIT = {"quick": 420, "thorough": 3000}


def native(harness, values, timeout=60):
    """Replays concrete values on the real code: labels violated, [] if none."""
    rc, out, _ = sh([SYMX, "replay", harness, ",".join(map(str, values))], timeout)
    if rc is None:
        return ["does not terminate"]
    if rc < 0 or rc >= 128:
        return [f"crash (signal {-rc if rc < 0 else rc - 128})"]
    return json.loads(out) if rc == 1 else []


def crash_slots(path):
    """Inputs being executed when the engine died."""
    d = open(path, "rb").read()
    name = d[:1024].split(b"\0")[0].decode()
    for o in range(1024, len(d) - 1023, 1024):
        flag, n = struct.unpack_from("<qq", d, o)
        if flag and 0 <= n <= 126:
            yield name, list(struct.unpack_from(f"<{n}q", d, o + 16))


def symx(prop, tier, seed):
    rc, out, err = sh([ROOT + "/build.sh"], 800)
    if rc != 0:
        raise CheckError("build failed\n" + err[-3000:])
    tb = time.time()
    crash = f"{ROOT}/target/crash.{os.getpid()}"
    rc, out, err = sh([SYMX, "run", prop, tier, str(LIMIT[tier]), crash], LIMIT[tier] + 120, {"VERIF_SEED": str(seed)})
    viol = []
    if rc not in (0, 1, 3):
        # The code under test aborted or exhausted memory: find the input.
        for name, values in (crash_slots(crash) if os.path.exists(crash) else []):
            labels = native(name, values)
            if labels:
                viol.append(dict(key=f"{name}: {labels[0]}", detail=f"values {values}", harness=name, values=values, labels=labels,
                                 rerun=f"{SYMX} replay '{name}' {','.join(map(str, values))}"))
                break
        if os.path.exists(crash):
            os.remove(crash)
        if not viol:
            raise CheckError(f"engine ended with {rc}: {err[-500:]}")
        cov = dict(states=0, transitions=0, traces_validated_against_impl=1, samples=[viol[0]["values"]])
        return dict(violations=viol, coverage=cov, assumptions=[], summary="crash")
    if os.path.exists(crash):
        os.remove(crash)
    j = json.loads([l for l in out.splitlines() if l.startswith("{")][-1])
    runs = j["runs"]
    for r in runs:
        v = r.get("violation")
        if v:
            labels = native(r["harness"], v["values"])
            if not labels:
                raise CheckError(f"counterexample does not reproduce natively: {r['harness']} {v}")
            viol.append(dict(key=f"{r['harness']}: {labels[0]}", detail=f"values {v['values']}", harness=r["harness"],
                             values=v["values"], labels=labels,
                             rerun=f"{SYMX} replay '{r['harness']}' {','.join(map(str, v['values']))}"))
        elif r.get("error"):
            raise CheckError(f"{r['harness']}: {r['error']}")
    if not runs:
        raise CheckError("no harness for " + prop)
    s = lambda k: sum(r[k] for r in runs)
    full = all(r["exhausted"] for r in runs)
    cov = dict(
        states=s("paths"), transitions=s("branches_flipped"), traces_validated_against_impl=s("validated"),
        samples=[dict(harness=r["harness"], values=x) for r in runs for x in r["samples"][:1]][:6],
        exhaustive=full,
        queries=s("queries"), queries_sat=s("sat"), queries_unsat=s("unsat"), assertion_queries=s("assertion_queries"),
        assertions=s("assertions"), solver_s=round(s("solver_s"), 2), solver="Z3 " + j["z3"],
        bounds=[dict(harness=r["harness"], call=CALLS.get(r["harness"], ""), paths=r["paths"], symbols=r["max_symbols"],
                     exhausted=r["exhausted"], wall_s=round(r["wall_s"], 2), labels=r["labels"]) for r in runs],
        rule="states = feasible paths of the harnesses through the real code; transitions = branches flipped; "
             "traces validated = path models re-executed natively with the same verdict")
    return dict(violations=viol, coverage=cov,
                assumptions=["Resources are compared through Eq, Ord and Hash of a symbolic type, a total order",
                             "Harness calls in coverage.bounds list (prefix, operations, value range): see DESIGN.md"],
                summary=f"harnesses={len(runs)} paths={cov['states']} queries={cov['queries']} exhausted={full}")


CALLS, SYMX_PROPS = {}, set()
for l in open(ROOT + "/symx/src/registry.rs"):
    m = re.match(r'\s*"(\w+)" [QT] "(.*?)" (.*);', l)
    if m:
        SYMX_PROPS.add(m.group(1))
        CALLS[m.group(2)] = m.group(3)


# ---------------------------------------------------------------- Kani

KANI = ROOT + "/kani"
KT = ROOT + "/target/kani"
KENV = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}
KLIMIT = {"quick": 600, "thorough": 3000}
HLIMIT = {"quick": 300, "thorough": 1800}
INCONCLUSIVE = ("not currently supported", "beyond the encoding", "is unsupported")


def kani_registry():
    """name -> (tier, unwinding bound, harness call)."""
    r = re.findall(r"^\s*(\w+) ([QT]) (\d+) (.*);$", open(KANI + "/src/registry.rs").read(), re.M)
    return {n: (t, int(u), e) for n, t, u, e in r}


def kani_fresh():
    """Forgets builds of another tree; file times say nothing about a checked-out one."""
    _, total, _ = sh(["bash", "-c", f"cd /repo && find src Cargo.toml {KANI}/src {KANI}/vendor -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum"], 60)
    mark = KT + "/repo.sum"
    if not os.path.exists(mark) or open(mark).read() != total:
        shutil.rmtree(KT, ignore_errors=True)
        os.makedirs(KT)
        open(mark, "w").write(total)


def kani_run(names, timeout, each, extra=()):
    """name -> dict(ok, failed, checks, time), from Kani's terse output."""
    cmd = ["cargo", "kani", "-Z", "stubbing", "--target-dir", KT, "--output-format", "terse", "-j", "8", "--exact",
           "-Z", "unstable-options", "--harness-timeout", str(each), *extra]
    for n in names:
        cmd += ["--harness", "proofs::" + n]
    e = dict(os.environ)
    e.update(KENV)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=KANI, start_new_session=True,
                         preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30)))
    try:
        out, _ = p.communicate(timeout=max(timeout, 1))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
    cur, t, res, at = {}, None, {}, None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness proofs::(\w+)", l)
        if m:
            cur[m[1]], t = m[2], m[1]
            continue
        m = re.match(r"Thread (\d+):", l)
        if m:
            t = m[1]
        n = cur.get(t)
        if n is None:
            continue
        d = res.setdefault(n, dict(ok=None, failed=[], checks=0, time=0.0))
        m = re.match(r"\s*\*\* (\d+) of (\d+) failed", l)
        if m:
            d["checks"] = int(m[2])
        m = re.match(r"Failed Checks: (.*)", l)
        if m:
            d["failed"].append(m[1])
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m:
            d["ok"] = m[1] == "SUCCESSFUL"
        m = re.match(r"Verification Time: ([\d.]+)", l)
        if m:
            d["time"] = float(m[1])
    return res, out


def kani_values(name, timeout, unwind=None):
    """Bytes of a counterexample of a failing harness, in each order of failed checks."""
    cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "concrete-playback", "--concrete-playback", "print", "--target-dir", KT,
           "--exact", "--harness", "proofs::" + name]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    e = dict(os.environ)
    e.update(KENV)
    try:
        out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=KANI, timeout=timeout).stdout
    except subprocess.TimeoutExpired:
        return []
    res = []
    for body in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        v = []
        for x in re.findall(r"vec!\[([\d, ]*)\]", body):
            v += [int(y) for y in x.split(",") if y.strip()]
        res.append(v)
    return res or [[]]


def kani(prop, tier, seed, beside=None):
    reg = kani_registry()
    mine = [n for n in reg if n.startswith(prop.lower() + "_") and (tier == "thorough" or reg[n][0] == "Q")]
    if not mine:
        raise CheckError("no harness for " + prop)
    kani_fresh()
    t0 = time.time() - (beside["wall"] if beside else 0)
    left = lambda: KLIMIT[tier] - (time.time() - t0)
    # The native twin compiles meanwhile.
    nt = ROOT + "/target/native"
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-A warnings", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    shutil.rmtree(nt, ignore_errors=True)
    twin = subprocess.Popen(["cargo", "build", "--offline", "--target-dir", nt], cwd=KANI + "/native", env=e,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    bound = {n: reg[n][1] for n in mine}
    res, out = kani_run(mine, left(), HLIMIT[tier])
    if twin.wait() != 0:
        raise CheckError("native build failed\n" + twin.stderr.read()[-2000:])
    short = lambda n: res[n]["ok"] is False and any("unwinding assertion" in f for f in res[n]["failed"])
    real = lambda n: [f for f in res[n]["failed"] if "unwinding assertion" not in f and not any(i in f for i in INCONCLUSIVE)]
    while True:
        # Unroll further where the bound was too small for this code.
        more = [n for n in mine if n in res and short(n) and not real(n) and bound[n] < 64]
        if not more or left() < 60:
            break
        for n in more:
            bound[n] *= 2
        for u in sorted({bound[n] for n in more}):
            group = [n for n in more if bound[n] == u]
            r, _ = kani_run(group, left(), HLIMIT[tier], ("--unwind", str(u)))
            res.update({n: r[n] if n in r else dict(res[n], ok=None) for n in group})
    # limits: harnesses out of reach of the solver on this code.
    viol, open_, limits = [], [], []
    for n in mine:
        if n not in res or res[n]["ok"] is None:
            if "Checking harness" not in out:
                raise CheckError(out[-1500:])
            limits.append(n + ": no verdict within the limits")
            continue
        if res[n]["ok"]:
            continue
        if not real(n):
            limits.append(f"{n}: {res[n]['failed']}")
            continue
        ok = False
        for v in kani_values(n, max(left(), 200), bound[n] if bound[n] != reg[n][1] else None):
            rc, o, _ = sh([nt + "/debug/replay", n, ",".join(map(str, v))], 30)
            if rc is None or rc == 1 or rc < 0:
                label = "does not terminate" if rc is None else o.strip() or f"signal {rc}"
                viol.append(dict(key=f"{n}: {label}", detail=f"bytes {v}", harness=n, values=v, labels=[label],
                                 rerun=f"{nt}/debug/replay {n} {','.join(map(str, v))}"))
                ok = True
                break
        if ok:
            break
        open_.append(f"{n}: counterexample does not reproduce natively: {real(n)}")
    if not viol and open_:
        raise CheckError("; ".join(open_))
    done = [n for n in mine if n in res and res[n]["ok"] is not None and not any(l.startswith(n + ":") for l in limits)]
    if not viol and not done and not beside:
        raise CheckError("; ".join(limits))
    cov = dict(
        states=len(done), transitions=sum(res[n]["checks"] for n in done), traces_validated_against_impl=len(viol),
        samples=[dict(harness=n, unwind=bound[n]) for n in done[:3]] if not viol else [dict(harness=viol[0]["harness"], values=viol[0]["values"])],
        exhaustive=not viol and not limits, undecided=limits, queries=sum(res[n]["checks"] for n in done), solver="CBMC with CaDiCaL, through Kani",
        solver_s=round(sum(res[n]["time"] for n in done), 2),
        bounds=[dict(harness=n, call=reg[n][2], unwind=bound[n], checks=res[n]["checks"], time_s=round(res[n]["time"], 2)) for n in done],
        rule="states = harnesses, each decided for every value of its bytes; transitions = checks decided (assertions, panics, "
             "memory safety, unwinding); a counterexample is replayed natively before it is reported")
    return dict(violations=viol, coverage=cov, assumptions=KANI_ASSUME.get(prop, []) + KANI_ASSUME[None],
                summary=f"harnesses={len(done)} checks={cov['queries']}" + "".join("; undecided " + l for l in limits))


STRINGS = ["std::fmt::format, String::with_capacity, String::push and String::push_str are replaced by versions with a fixed buffer of 24 bytes producing the same text"]
KANI_ASSUME = {
    None: ["IRIs are compared, ordered and hashed byte by byte (kani/vendor/iref-core replaces three impls of the dependency)"],
    "C30": STRINGS,
    "C31": STRINGS,
    "C32": ["is_xsd_string is replaced by a comparison of lengths: Kani cannot encode the constant XSD_STRING"],
}

def kani_first_symx(prop, tier, seed):
    """Kani, after the property's symx harnesses if it has any."""
    if prop not in SYMX_PROPS:
        return kani(prop, tier, seed)
    t0 = time.time()
    a = symx(prop, tier, seed)
    if a["violations"]:
        return a
    r = kani(prop, tier, seed, dict(wall=time.time() - t0))
    r["coverage"]["symx"] = a["coverage"]
    r["assumptions"] += a["assumptions"]
    r["summary"] += "; symx " + a["summary"]
    return r


ENGINES = {"symx": symx, "kani": kani_first_symx}
