"""What each property's check builds and runs."""
import os, subprocess

from check import PIN, V

BASE = "harness/base"


def base(r, feats, profile="release", opt=None):
    return r.build(BASE, feats, profile, opt=opt)


def three(r, b):
    """The monitor in the compact, the raw and the plain (no overflow checks) build."""
    x = base(r, ["short", "pasta", b])
    y = base(r, [b])
    r.run(x, [b])
    r.run(y, [b])
    return x, y


def B01(r):
    r.rule = ("two-to-one calls over random, edge, neighbouring, round-steered and chained inputs through every "
              "entry point, in the compact and raw builds; distinct = distinct (a, b, domain, entry) per build; "
              "oracle = independent Montgomery implementation of Poseidon with Grain-generated parameters")
    three(r, "b01")


def B02(r):
    r.rule = ("messages of every length 1..160 and up to 65537 words, random/edge/steered words, explicit and default "
              "capacities, in the compact, raw and legacy builds; distinct = distinct (message, capacity, entry) per build")
    three(r, "b02")
    r.run(base(r, ["short", "legacy", "b02"]), ["b02"])


def B03(r):
    r.rule = ("states (edge, steered so that chosen inner words are zero or extreme, random, iterated) through every "
              "permutation entry point over both fields, compact and raw builds; distinct = distinct (entry, state) per build")
    three(r, "b03")


def B04(r):
    r.rule = ("every entry of every table and accessor against the Grain reference, in fresh processes with random "
              "sequential or concurrent first-use orders; distinct = distinct (order) and (table, order-run) observations")
    n = 200 if r.thorough else 24
    x = base(r, ["short", "pasta", "b04"])
    y = base(r, ["b04"])
    r.many([lambda k=k, b=b: r.run(b, ["b04", "--order", str(k)], tag=str(k)) for k in range(n) for b in (x, y)])


def B05(r):
    r.rule = ("(field, width, full, partial rounds, matrix index) specs over 8 real and 12 small prime fields; "
              "distinct = distinct specs whose reference parameters exist; every generated word compared")
    r.run(base(r, ["short", "b05"], opt=1), ["b05"])


def B06(r):
    r.rule = ("(field, width, rate, rounds, exponent, length, domain) with random and Grain parameters installed at run "
              "time; distinct = distinct (field, shape, message) judged against the reference sponge")
    r.run(base(r, ["short", "b06"], opt=1), ["b06"])


def B07(r):
    r.rule = ("operations on one long history per thread (distinct = distinct consecutive operation pairs) and first-use "
              "races in fresh processes (distinct = distinct event interleavings of the recorded start/end log)")
    x = base(r, ["short", "b07"])
    r.run(x, ["b07", "--mode", "history"])
    r.run(x, ["b07", "--mode", "volume"], timeout=2000)
    n = 1500 if r.thorough else 150
    jobs = [lambda k=k: r.run(x, ["b07", "--mode", "race", "--selftest", "0", "--order", str(k), "--racers",
                                  str([4, 8, 16, 32][k % 4])], tag=str(k)) for k in range(n)]
    r.many(jobs, 4)
    miri(r)


def miri(r):
    """First-use races under Miri (data races and undefined behaviour), against a serial native run."""
    d = os.path.join(V, "harness/miri")
    flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    if not r.thorough:
        flags += " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
    n = 48 if r.thorough else 8
    for feats in ("short", "")[:2 if r.thorough else 1]:
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(V, "target", "miri"), CARGO_TERM_COLOR="never")
        env.pop("RUSTFLAGS", None)

        def cargo(tool, how, args, flags=flags):
            cmd = ["cargo"] + how + ["--release", "--offline", "-q", "--features", feats, "--"] + args
            try:
                p = subprocess.run(cmd, cwd=d, env=dict(env, RUSTUP_TOOLCHAIN=tool, MIRIFLAGS=flags), text=True, errors="replace",
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3000 if r.thorough else 400)
            except subprocess.TimeoutExpired:
                return " ".join(cmd), None, "", "timeout"
            return " ".join(cmd), p.returncode, p.stdout, p.stderr

        if cargo("nightly", ["miri", "run"], [])[1] != 0 or cargo(PIN, ["run"], [])[1] != 0:
            r.log("miri: not available for this tree, skipped")
            r.counters["miri_unavailable"] = r.counters.get("miri_unavailable", 0) + 1
            continue

        def go(k):
            seed = r.seed * 1000 + k
            _, _, want, _ = cargo(PIN, ["run"], [str(seed), "serial"])
            how, rc, out, err = cargo("nightly", ["miri", "run"], [str(seed)], flags + f" -Zmiri-seed={seed}")
            if "Undefined Behavior" in err or "Data race" in err:
                r.violation("undefined-behaviour", f"concurrent first use: {err[err.find('error'):][:900]}", how)
            elif "deadlock" in err:
                r.violation("deadlock", f"concurrent first use: {err[err.find('error'):][:900]}", how)
            elif rc != 0:
                return "miri_no_answer", 0
            elif out != want:
                r.violation("history-dependent", f"concurrent first use gives {out[:600]} but one after the other {want[:600]}", how)
            return "miri_runs", out.count("\n")

        for key, ops in r.many([lambda k=k: go(k) for k in range(n)]):
            r.counters[key] = r.counters.get(key, 0) + 1
            r.counters["miri_operations"] = r.counters.get("miri_operations", 0) + ops
            r.evals += ops


def B08(r):
    r.rule = ("the same seeded workload in 8 builds (compact/raw x legacy x with/without overflow checks and debug "
              "assertions), each judged against the reference and the logs compared between builds; distinct = distinct "
              "(build, operation, input)")
    logs, bins = {}, {}
    for prof in ("release", "plain"):
        for feats in (["short"], [], ["short", "legacy"], ["legacy"]):
            name = "+".join(feats or ["raw"]) + "/" + prof
            bins[name] = base(r, feats + ["b08"], prof)

    def go(name):
        log = os.path.join(r.tmp, "log-" + name.replace("/", "-"))
        d = r.run(bins[name], ["b08", "--config", name, "--log", log])
        if d is not None:
            logs[name] = open(log).read().splitlines()

    r.many([lambda n=n: go(n) for n in bins])
    names = sorted(logs)
    for n in names[1:]:
        if logs[n] != logs[names[0]]:
            i = next((i for i, (a, b) in enumerate(zip(logs[n], logs[names[0]])) if a != b), -1)
            r.violation("configurations-differ", f"{names[0]} and {n} differ at log line {i}: "
                        f"{logs[names[0]][i] if i >= 0 else ''} / {logs[n][i] if i >= 0 else ''}")
    r.counters["log_lines_compared"] = sum(len(logs[n]) for n in names[1:])


def B09(r):
    r.rule = ("inputs and their neighbours (bit flips, swaps, drops, shifts, paddings, domains, capacities, moves between "
              "the hashes); distinct = distinct digests observed; two inputs share a digest only if their absorb "
              "transcripts are the same")
    x = base(r, ["short", "b09"])
    r.run(x, ["b09"])


def B10(r):
    r.rule = ("sets of constants supplied for six small and medium fields (0..90 partial rounds), each form of the "
              "permutation on every state of a tiny field or on sampled states, hashes through the user's own trait "
              "implementations; distinct = distinct (constant set, form, state or message) per build")
    for f in (["short", "b10"], ["b10"]):
        r.run(base(r, f, opt=3), ["b10"])


# ---- poseidon-circuit, over a recording stand-in for halo2_proofs ------------------------
CIRC = "harness/circuit"
MODES = ["serial", "parallel", "unset"]


def circ(r, feats, profile="release"):
    return r.build(CIRC, feats, profile)


def modes(r, x, args, ms=("serial", "parallel")):
    for m in ms:
        r.run(x, args + ["--mode", m], timeout=5000 if r.thorough else 600)


def tables(r, prop):
    x = circ(r, ["short", "parallel_syn", "c01"])
    modes(r, x, ["c01", "--prop", prop], MODES)
    # real circuits have tables of this size
    r.many([lambda m=m: r.run(x, ["c01", "--prop", prop, "--mode", m, "--big", "66000", "--threads", "2", "--n", "1"],
                              tag=f"big-{m}", timeout=800) for m in ("serial", "parallel")], 2)
    y = circ(r, ["c01"])  # no switch at all: serial only
    r.run(y, ["c01", "--prop", prop, "--mode", "unset"] + ([] if r.thorough else ["--n", "30"]), timeout=5000)
    z = circ(r, ["short", "base_legacy", "parallel_syn", "c01"])
    r.run(z, ["c01", "--prop", prop, "--mode", "unset"] + ([] if r.thorough else ["--n", "30"]), timeout=5000)


def C01(r):
    r.rule = ("tables (random mixes of two-word hashes, checked entries and streams; edge, repeated and chained words; "
              "domains), step, capacity, chip, assignment mode and build; distinct = distinct (table, step, capacity, chip, "
              "mode, build); every gate, lookup and copy of the recorded assignment evaluated")
    tables(r, "c01")


def C02(r):
    r.rule = ("the six exposed columns of every row of every synthesized table against rows computed from the builder "
              "calls with the independent reference; distinct = distinct (table, step, capacity, chip, mode, build)")
    tables(r, "c02")


def forged(r, prop):
    x = circ(r, ["short", "parallel_syn", "c03"])
    modes(r, x, ["c03", "--prop", prop])


def C03(r):
    r.rule = ("forged witnesses: one equivalence class of advice cells given another value, the rest re-derived so that as "
              "many constraints as possible hold again; distinct = distinct (table, chip, class, value) judged; a forgery that "
              "every constraint accepts must still show true digests")
    forged(r, "c03")


def C04(r):
    r.rule = ("tables with broken framing synthesized through the real code, forged controls/starts/flags re-derived; "
              "builder calls with empty and overlong streams; distinct = distinct forged tables and call sequences")
    forged(r, "c04")
    y = circ(r, ["short", "parallel_syn", "c07"])
    r.run(y, ["c07", "--prop", "c04"])


def C05(r):
    r.rule = ("pairs of syntheses of the same capacity, step and chip with different tables (empty, full, random), fixed "
              "part compared cell by cell; distinct = distinct (table, capacity, step, chip, mode)")
    modes(r, circ(r, ["short", "parallel_syn", "c05"]), ["c05"])


def C06(r):
    r.rule = ("syntheses with 1..16 CPUs reported, worker schedules (in order, reversed, random, one at a time, real threads) "
              "compared with the serial synthesis; distinct = distinct (table, capacity, CPUs, schedule)")
    x = circ(r, ["short", "parallel_syn", "c06"])
    r.run(x, ["c06"], timeout=5000)
    r.run(x, ["c06", "--big", "66000", "--n", "1", "--threads", "1"], tag="big", timeout=800)


def C07(r):
    r.rule = ("random builder call histories judged after every call against a model; distinct = distinct histories")
    r.run(circ(r, ["short", "parallel_syn", "c07"]), ["c07", "--prop", "c07"])


def C08(r):
    r.rule = ("tables whose entries carry right, near, foreign or absent expected digests; distinct = distinct (table, "
              "position, value, mode, build)")
    for prof in ("release", "plain"):
        x = circ(r, ["short", "parallel_syn", "c08"], prof)
        modes(r, x, ["c08"])
        if not prof or prof == "release":
            r.many([lambda m=m: r.run(x, ["c08", "--mode", m, "--big", "66000", "--threads", "1", "--n", "1"],
                                      tag=f"big-{m}", timeout=800) for m in ("serial", "parallel")], 2)


def C09(r):
    r.rule = ("states and batches permuted by each chip over both fields and several widths and round counts, then every "
              "class of cells tampered and re-derived; distinct = distinct (chip, states) and (chip, class, value)")
    r.run(circ(r, ["short", "parallel_syn", "c09"]), ["c09", "--prop", "c09"], timeout=5000)
    r.run(circ(r, ["c09"]), ["c09", "--prop", "c09"] + ([] if r.thorough else ["--n", "4"]), timeout=5000)


def C10(r):
    r.rule = ("in-circuit hashes and squeezes for lengths, widths and messages against the native hash and the reference, "
              "then tampered; distinct = distinct (spec, length, message) and (class, value)")
    r.run(circ(r, ["short", "parallel_syn", "c09"]), ["c09", "--prop", "c10"], timeout=5000)


def C11(r):
    r.rule = ("rows reached by the recorded assignment at capacities from the table's own up, within a row limit equal to "
              "the advertised budget; distinct = distinct (table, step, capacity, build, mode)")
    modes(r, circ(r, ["short", "parallel_syn", "c11"]), ["c11"])
    r.run(circ(r, ["c11"]), ["c11", "--key", "raw-build-budget"])


def C12(r):
    r.rule = ("tables that end before, in or (by their control) beyond the last row, and forged values in the reserved rows, re-derived; distinct = "
              "distinct (table, chip, capacity, forgery) judged")
    forged(r, "c12")


def C13(r):
    r.rule = ("what each of 7 builds selects: rows advertised, rows taken, domain factor shown and native, workers used, "
              "under 5 values of the environment override; distinct = distinct (build, circuit, override)")
    for f in ([], ["short"], ["short", "parallel_syn"], ["short", "base_legacy"], ["short", "legacy"], ["parallel_syn"],
              ["circuit_default"]):
        r.run(circ(r, f + ["c11"]), ["c13", "--config", "+".join(f) or "none"])


def C14(r):
    r.rule = ("circuits made of 1..3 tables (own chip, step, capacity, column order), foreign columns and regions, load order "
              "and lookup clients; distinct = distinct circuits; every gate, lookup and copy evaluated, then clients asking "
              "for rows no table shows")
    modes(r, circ(r, ["short", "parallel_syn", "c14"]), ["c14"], MODES)


def C15(r):
    r.rule = ("tables of fewer, exactly as many and more entries than the capacity (and control lists longer than it), "
              "steps, chips, assignment modes; distinct = distinct (table, capacity, step, chip, mode)")
    modes(r, circ(r, ["short", "parallel_syn", "c15"]), ["c15"], MODES)
    r.run(circ(r, ["c15"]), ["c15", "--mode", "unset"])


def C16(r):
    r.rule = ("one operation of a synthesis refused (every one of small syntheses, a spread over larger ones; cells, fixed "
              "cells, selectors, equalities, constants, lookup cells, regions), or fewer rows than used; distinct = distinct "
              "(synthesis, refused operation or row limit)")
    modes(r, circ(r, ["short", "parallel_syn", "c15"]), ["c16"])


def C17(r):
    r.rule = ("48 syntheses each alone in a fresh process, then in other orders, repeated, between failing syntheses and "
              "beside up to 15 others, recorded assignments compared; distinct = distinct (run, thread, previous, synthesis)")
    x = circ(r, ["short", "parallel_syn", "c15"])
    jobs, orders = (160, 90) if r.thorough else (48, 12)
    for mode in ("serial", "parallel"):
        def go(tag, args):
            log = os.path.join(r.tmp, f"log-{mode}-{tag}")
            d = r.run(x, ["c17", "--mode", mode, "--selftest", "0", "--jobs", str(jobs), "--log", log] + args, tag=f"{mode}-{tag}")
            return (tag, [l.split("\t") for l in open(log).read().splitlines()]) if d is not None else (tag, [])

        alone = r.many([lambda k=k: go(f"alone{k}", ["--only", str(k)]) for k in range(jobs)])
        want = {l[0]: l for _, v in alone for l in v}
        seen = 0
        for k, l in want.items():
            if l[1].startswith(("panic", "error")):
                r.violation("synthesis-failed", f"{mode}, alone: {l[2]}: {l[1]}", f"--only {k}")
        for tag, v in r.many([lambda k=k: go(f"order{k}", ["--order", str(k)]) for k in range(orders)], 2):
            for l in v:
                seen += 1
                if l[0] in want and l[1] != want[l[0]][1]:
                    r.violation("history-dependent", f"{mode}: {l[2]}: alone {want[l[0]][1]}, in company {l[1]}", f"--{tag}")
        r.counters[f"compared_{mode}"] = seen


def C18(r):
    r.rule = ("programs of permutations, hashes and sponges synthesized with all, some and no witnesses known and with "
              "special values; constraint system, fixed cells, selectors, copies and assigned cells compared; distinct = "
              "distinct (chip, program, witnesses)")
    modes(r, circ(r, ["short", "parallel_syn", "c15"]), ["c18"])
    r.run(circ(r, ["c15"]), ["c18"] + ([] if r.thorough else ["--n", "4"]))


def C19(r):
    r.rule = ("tables over ten small prime fields with random (also sparse) round constants and matrices and varying "
              "numbers of partial rounds, both chips, five steps; distinct = distinct (field, constants, chip, step, capacity, table)")
    modes(r, circ(r, ["short", "parallel_syn", "c19"]), ["c19"], MODES)
    r.run(circ(r, ["c19"]), ["c19", "--mode", "unset"])


def C20(r):
    r.rule = ("tables, permutations, hashes and sponges synthesized by floor planners that leave gaps, reorder regions or run "
              "each region's assignment twice; distinct = distinct (circuit, planner), each satisfied, exact and unforgeable there")
    n = [] if r.thorough else ["--n", "24"]
    pl = ["--planner", "any", "--mode", "serial"]
    for f, runs in ((["c01"], (["c01", "--prop", "c01"], ["c01", "--prop", "c02"])), (["c03"], (["c03", "--prop", "c03"],)),
                    (["c09"], (["c09", "--prop", "c09"], ["c09", "--prop", "c10"]))):
        x = circ(r, ["short", "parallel_syn"] + f)
        for a in runs:
            r.run(x, a + pl + n, tag="-".join(a), timeout=5000)
        if f != ["c03"]:
            x = circ(r, f)
            for a in runs:
                r.run(x, a + pl + ([] if r.thorough else ["--n", "4"]), tag="default-" + "-".join(a), timeout=5000)


def C21(r):
    r.rule = ("8-row chips placed by the caller in its own regions and general chips on columns shared between them and "
              "permuted; distinct = distinct (layout, states or messages) and (class, value) tampered and re-derived")
    x = circ(r, ["short", "parallel_syn", "c09"])
    for p in ("c09", "c10"):
        r.run(x, ["c09", "--prop", p, "--own", "1", "--n", "400" if r.thorough else "30"], tag=p, timeout=5000)
        r.run(x, ["c09", "--prop", p, "--own", "1", "--planner", "any", "--n", "400" if r.thorough else "30"], tag=p + "-planner", timeout=5000)
