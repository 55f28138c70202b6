#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]: build the monitors of one property from
/repo's working tree, run them, judge, write evidence/<id>.json.
Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PIN = "nightly-2024-07-07"
CPUS = os.cpu_count() or 8


ASSUME = ["judged on the executions this run made, not on all",
          "the independent oracle in oracle/ (self-tested against published vectors and big-integer arithmetic)",
          "the compiler and halo2curves/ff"]
ASSUME_C = ["halo2_proofs is not available offline: the circuit crate is built, unchanged, over shim/halo2_proofs, a stand-in "
            "that records configuration and assignment and evaluates gates, lookups and copies exactly as MockProver defines them"]


class NoAnswer(Exception):
    pass


def dictionary(path):
    """Numbers written in the sources, as extra input values (a fuzzing dictionary):
    they only widen the workload, verdicts come from the oracle alone."""
    lit = r"(?<![\w.])(0[xX][0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*?)(?:_?(?:u8|u16|u32|u64|u128|usize|i32|i64|i128))?(?![\w.])"
    nums, words = {}, {}
    def val(t):
        t = t.replace("_", "")
        return int(t, 16 if t[:2] in ("0x", "0X") else 2 if t[:2] == "0b" else 10)
    for top in ("poseidon-base", "poseidon-circuit"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, top, "src"))):
            for f in sorted(fs):
                if not f.endswith(".rs"):
                    continue
                txt = re.sub(r"//[^\n]*", "", open(os.path.join(d, f), errors="replace").read())
                for l in re.findall(r"\[([^\[\]]*)\]", txt):
                    v = [val(x) for x in re.findall(lit, l)]
                    if len(v) == 4 and all(x < 2 ** 64 for x in v):
                        words[sum(x << 64 * i for i, x in enumerate(v))] = 1
                    elif len(v) == 32 and all(x < 256 for x in v):
                        words[int.from_bytes(bytes(v), "little")] = words[int.from_bytes(bytes(v), "big")] = 1
                txt = re.sub(r"\[(?:\s*0x[0-9a-fA-F_]{8,}\s*,?){2,}\s*\]", "", txt)
                txt = re.sub(r"\[(?:\s*(?:0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:u8)?\s*,?){8,}\s*\]", "", txt)
                for x in re.findall(lit, txt):
                    x = val(x)
                    if x < 2 ** 128:
                        nums[x] = 1
                    elif x < 2 ** 256:
                        words[x] = 1
    with open(path, "w") as f:
        for x in sorted(nums)[:4000]:
            f.write(f"n {x:x}\n")
        for x in list(words)[:4000]:
            f.write(f"w {x:x}\n")


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.viol = []  # (key, detail, how)
        self.runs = []
        self.rule = ""
        self.assumptions = ASSUME + (ASSUME_C if prop[0] == "C" else [])
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.dict = os.path.join(self.tmp, "dict.txt")
        dictionary(self.dict)

    def log(self, s):
        print(f"[{time.time() - self.t0:6.1f}s] {s}", flush=True)

    # ---- building -------------------------------------------------------
    def build(self, crate, features, profile="release", name=None, opt=None, toolchain=PIN,
              extra=(), env=None, copy=True, sub="build", target=None):
        tdir = os.path.join(V, "target", target or os.path.basename(crate))
        e = dict(os.environ, RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true",
                 CARGO_TARGET_DIR=tdir, CARGO_TERM_COLOR="never")
        e.update(env or {})
        e.pop("RUSTFLAGS", None) if not (env or {}).get("RUSTFLAGS") else None
        pkg = {"harness/base": "base-harness", "harness/circuit": "circuit-harness"}[crate]
        cmd = ["cargo", sub, "--offline", "--profile", profile, "--features", ",".join(features)]
        if opt is not None:
            cmd += ["--config", f"profile.{profile}.package.{pkg}.opt-level={opt}"]
        cmd += list(extra)
        t = time.time()
        p = subprocess.run(cmd, cwd=os.path.join(V, crate), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            print(p.stdout[-6000:])
            raise NoAnswer(f"build failed: {' '.join(cmd)} in {crate}")
        self.log(f"built {crate} [{','.join(features)}] {profile} in {time.time() - t:.1f}s")
        d = {"dev": "debug"}.get(profile, profile)
        i = list(extra).index("--target") if "--target" in extra else -1
        b = os.path.join(tdir, *( [extra[i + 1]] if i >= 0 else []), d, pkg)
        if not copy:
            return b
        out = os.path.join(self.tmp, name or f"{pkg}-{'-'.join(features)}-{profile}")
        shutil.copy2(b, out)
        return out

    # ---- running --------------------------------------------------------
    def run(self, binary, args, timeout=600, env=None, tag="", fold=True, wrap=()):
        """Run a monitor; fold what it saw into this run."""
        out = os.path.join(self.tmp, f"out-{len(self.runs)}-{abs(hash((binary, tuple(args), tag)))}.json")
        cmd = list(wrap) + [binary] + args + ["--seed", str(self.seed), "--tier", self.tier, "--out", out]
        e = dict(os.environ, VERIF_DICT=self.dict)
        e.update(env or {})
        how = " ".join(cmd)
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, cwd=self.tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            raise NoAnswer(f"time limit {timeout}s: {how}")
        res = {"cmd": how, "rc": rc, "s": round(time.time() - t, 1)}
        self.runs.append(res)
        if rc not in (0, 1):
            print(txt[-3000:])
        if rc == 3 and "HANG:" in txt:
            self.viol.append(("hang", [l for l in txt.splitlines() if l.startswith("HANG:")][0], how))
            return None
        if rc < 0 or rc in (134, 139, 66):
            if rc == -signal.SIGKILL:
                raise NoAnswer(f"killed (memory?): {how}")
            self.viol.append(("crash", f"the process died with status {rc}: {txt[-800:]}", how))
            return None
        if rc not in (0, 1):
            raise NoAnswer(f"monitor error {rc}: {how}")
        try:
            d = json.load(open(out))
        except Exception as x:
            raise NoAnswer(f"no result from {how}: {x}")
        if rc == 1 and not d["nviol"]:
            raise NoAnswer(f"exit 1 without a violation: {how}")
        if fold:
            self.fold(d, how)
        return d

    def fold(self, d, how):
        self.evals += d["evaluations"]
        self.distinct += d["distinct_nontrivial"]
        for k, v in d["counters"].items():
            if k.startswith("max_"):
                self.counters[k] = max(v, self.counters.get(k, 0))
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for s in d["samples"]:
            if len(self.samples) < 8 and s not in self.samples:
                self.samples.append(s)
        for v in d["violations"]:
            self.viol.append((v["key"], v["detail"], how))

    def many(self, jobs, width=None):
        with cf.ThreadPoolExecutor(width or CPUS) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    def violation(self, key, detail, how=""):
        self.viol.append((key, detail, how))

    # ---- finishing ------------------------------------------------------
    def finish(self, level):
        known = {}
        path = os.path.join(V, "known_findings.txt")
        if os.path.exists(path):
            for l in open(path):
                l = l.strip()
                if l.startswith("finding: "):
                    head, _, what = l[9:].partition(" | ")
                    kv = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                    known[(kv["property"], kv["key"])] = what
        new, old = [], {}
        for v in self.viol:
            if (self.prop, v[0]) in known:
                old[v[0]] = known[(self.prop, v[0])]
            else:
                new.append(v)
        for k, what in sorted(old.items()):
            print(f"KNOWN-FINDING: property={self.prop} {k}: {what}")
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct,
            "rule": self.rule,
            "samples": self.samples or ["(none)"],
            "observed": self.counters,
            "monitor_runs": len(self.runs),
            "known_findings": sorted(old),
            "violation_details": [{"key": k, "detail": d[:1500]} for k, d, _ in new[:20]],
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        with open(os.path.join(V, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for i, (k, d, how) in enumerate(new[:5]):
            rp = os.path.join(V, "evidence", f"{self.prop}-replay-{i}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "key": k, "detail": d, "run": how, "seed": self.seed,
                           "again": f"VERIF_SEED={self.seed} python3 {V}/check.py {self.prop} {self.tier}"}, f, indent=1)
            print(f"VIOLATION property={self.prop} replay={rp} [{k}] {d[:400]}")
        self.log(f"{self.prop}: {self.evals} evaluations, {self.distinct} distinct, "
                 f"{len(new)} violations, {len(old)} known findings")
        return 1 if new else 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, V)
    import plans
    r = Run(prop, tier, seed)
    try:
        level = getattr(plans, prop)(r)
        rc = r.finish(level or "exploration")
    except NoAnswer as e:
        print(f"NO-ANSWER: {e}")
        # what was already seen to be violated stays violated
        rc = 2
        if r.viol:
            rc = r.finish("exploration") or 2
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
