"""What each check runs, and what it counts."""
import concurrent.futures, json, os, re, subprocess, sys, time

# Per property: seconds of exploration (quick, thorough), the least number of
# observations without which there is no answer, the rule of the evidence.
H = "Random histories over 17 key/value type pairs and a few collections of up to 100000 entries (phases of ascending, descending and random fills and drains, churn, entry operations, writes through references, bulk loads), on Map and RbTree"
PROPS = {
    "C01": dict(need=["large collections"], min=5000, rule=H + "; every call's result and the queries after every step are compared with a sorted dictionary. A situation is a state (its keys) with the operation that led to it; non-trivial with at least two entries."),
    "C02": dict(need=["large collections"], min=3000, rule=H + ", and paged collections; at monitored steps the root hash is compared with an independently computed hash of the full tree, the tree's entries with the model, and root hashes across the whole run with the contents they stand for. Distinct by contents; non-trivial with at least two entries."),
    "C03": dict(need=["large collections"], min=20000, rule=H + ", and paged collections; all kinds of witness are hashed independently. Distinct by query and shape of the witness; non-trivial on collections of at least two entries."),
    "C04": dict(need=["large collections"], min=20000, rule=H + ", and paged collections; key witnesses are serialized, decoded independently and judged by a verifier (specification lookup, gap-free neighbours) against the model. Distinct by query and shape of the witness; non-trivial on collections of at least two entries."),
    "C05": dict(need=["large collections"], min=20000, rule=H + "; range, prefix and all-keys witnesses are judged by a coverage verifier against the model. Distinct by query and shape of the witness; non-trivial on collections of at least two entries."),
    "C06": dict(need=["large collections"], min=20000, rule=H + ", and paged collections; the keys and values every witness shows are compared with what the query allows. Distinct by query and shape of the witness; non-trivial on collections of at least two entries."),
    "C07": dict(min=3000, rule="Random hash trees (all node kinds, labels and leaves of 0 to 70000 bytes, owned and borrowed, deep and wide) hashed, serialized and decoded independently. Distinct by the tree's encoding; non-trivial with more than one node."),
    "C08": dict(min=50000, rule="Values of every supported type: all of the 8-bit ones, boundaries and random bits of the others; hash, tree and bytes compared with documented bytes written independently. Distinct by type and bytes."),
    "C09": dict(min=50000, rule="Pairs of equal, neighbouring, prefix-related, boundary and random keys of every supported type and of paged keys; labels compared with documented bytes, their order with the key order. Distinct by type and pair; pairs of equal keys are trivial."),
    "C10": dict(need=["large collections"], min=3000, rule="Adversarial and random histories; at every step the shape of the tree (through its full tree), the keys each call compares and the values it rehashes, and the size of witnesses, against bounds linear in 2*log2(n+1). Distinct by shape and size; non-trivial with at least three entries."),
    "C11": dict(min=20000, rule="Histories of safe calls with keys and values that enter a ledger when made and dropped, on every collection, with references and witnesses kept as long as the compiler allows: in native builds (ledger, allocator balance), under AddressSanitizer and LeakSanitizer with the workloads of the other properties as guests, under Miri (Tree Borrows), and as programs that misuse references, which must not compile or else run without undefined behaviour. Distinct by history."),
    "C12": dict(need=["large collections"], min=3000, rule="Random histories over sequences of 10 item types using every way to build one; contents, equality and root hash compared with a list and an independent chain hash after every step. Distinct by contents and operation; non-trivial with at least two items."),
    "C13": dict(min=3000, rule="Random insertions over 18 combinations of key type, item type and page size (1 to 256), and lists of up to 66500 (thorough: 140000) pages; lookups, last page numbers and proofs compared with the item lists cut into pages. Distinct by page size and items per key; non-trivial with at least two pages."),
    "C14": dict(min=20000, need=["large collections", "maps decoded from damaged bytes", "maps decoded from entries in any order", "sequences decoded from damaged bytes", "paged collections decoded from damaged bytes", "messages of several collections"], rule="Maps, sequences and paged collections in random states (and one of more than 65536 entries), encoded as CBOR and Candid and compared with the encodings of plain dictionaries and lists; decoded from these, from entries in any order and repeated, and from truncated and damaged bytes; every decoded collection judged by contents, root hash, full tree, witnesses and its behaviour under further changes. Distinct by bytes and by witness; non-trivial with at least two entries."),
    "C15": dict(min=20000, need=["witnesses with partial leaves", "taken types and paths refused", "insertion orders compared"], rule="Random groups of up to 36 leaf types (maps, sequences, paged collections, trees, values, hand-written leaves) at random paths, inserted in different orders; root hash, full tree, witnesses of every choice of leaves (whole and partial), typed access and refusals, before and after changes to leaves, compared with a tree built independently. Distinct by layout, choice and shape of the witness."),
    "C16": dict(min=3000, need=["cases compared between debug and optimized builds", "cases compared with i686-unknown-linux-gnu (32 bits, little endian)", "cases compared with s390x-unknown-linux-gnu (64 bits, big endian)"], rule="Random histories on maps, trees, sequences, paged collections, groups and nested maps; every result, root hash, witness, iteration and encoding noted, twice per process at other addresses, and the notes compared between processes, builds with and without optimization checks, and machines of 32 and 64 bits and of both byte orders (interpreted by Miri). Distinct by observed bytes."),
    "C17": dict(min=20000, level="fault_enumeration", need=["failures injected", "histories with every failure at one point", "failures of a decoder", "failures inside nested collections", "failures in callbacks of a group", "failures of an iterator given to a sequence", "failures of an iterator given to a map"], rule="In random states of maps, trees, sequences, paged collections, nested collections and groups, a panic (or decoding error) at every point at which an operation runs code of its caller; afterwards contents, root hash, full tree, witnesses, later operations and the ledger of dropped values are compared with a model to which only the completed changes were applied. Distinct by state, operation and point of failure."),
    "C18": dict(min=20000, need=["absence proved within a value", "presence proved within a value", "proofs in separate parts", "proofs through a group", "changes at an inner level", "nested collections decoded"], rule="Random histories over 16 nestings (up to five levels of maps, trees, sequences, paged collections and boxes) and 3 groups of nestings, changed at every level by every mutating route; the outermost root hash and full tree compared with a nested model, and proofs composed through every level - in one witness or in separate parts - serialized, decoded independently and judged. Distinct by nesting and bytes of the proof, or contents; non-trivial if the proof goes through a value or the outermost level has at least two entries."),
    "C19": dict(min=2000, need=["queries asked twice", "observations compared between runs", "answers compared with those of a fresh run"], rule=H + ", and on sequences, paged collections, groups, nested maps and encodings, each run with and without interleaved queries (every query asked twice); results, root hashes, full trees, witnesses and encodings compared. Distinct by shape of the tree and step; non-trivial with at least two entries."),
}
QUICK = 18
THOROUGH = 420


def known_findings(here):
    out = set()
    for line in open(os.path.join(here, "known_findings.txt")):
        line = line.rstrip("\n")
        if line.startswith("finding: property="):
            rest = line[len("finding: property="):]
            prop, what = rest.split(" ", 1)
            out.add((prop, what))
    return out


def execute(run, ck):
    cfg = PROPS[run.prop]
    secs = cfg.get(run.tier, QUICK if run.tier == "quick" else THOROUGH)
    special = globals().get("run_" + run.prop)
    if special:
        return special(run, ck, secs)
    ck.build(["mon", "rel"])
    run.total = 8
    run.wait(run.shards("mon", 5, secs) + run.shards("rel", 3, secs, base=5))


# --- C11 -------------------------------------------------------------------

# Workloads of other properties that run under AddressSanitizer as well.
GUESTS = ["C01", "C03", "C05", "C12", "C13", "C14", "C15", "C17", "C18"]
MEMORY = re.compile(r"error: (Undefined Behavior|memory leaked)|Undefined Behavior: |memory leaked: ")


def guests():
    return [g for g in GUESTS if g in PROPS]


def run_C11(run, ck, secs):
    # Everything is built at once: mostly one crate after the other, each on one core.
    pool = concurrent.futures.ThreadPoolExecutor(3)
    native = pool.submit(ck.build, ["mon", "asan"])
    probing = pool.submit(build_probes, ck)
    miri = pool.submit(ck.build_miri)
    native.result()
    ck.log("native builds: %d s" % (time.time() - run.t0))
    miri = miri.result()
    ck.log("Miri build: %d s" % (time.time() - run.t0))
    probing = probing.result()
    ck.log("probes: %d s" % (time.time() - run.t0))
    run.counters["Miri runs the harness with the real hash function"] = int(miri != ck.MIRI_DIRS[0])
    run.total = 8
    # The ledger and the allocator's balance.
    jobs = run.shards("mon", 5, secs) + run.shards("asan", 3, secs, base=5)
    run.wait(jobs)
    if run.violation:
        return
    # AddressSanitizer and LeakSanitizer under other workloads.
    per = max(6, secs // 2)
    gs = guests()
    for i in range(0, len(gs), 4):
        jobs = []
        for g in gs[i:i + 4]:
            jobs += run.shards("asan", 2, per, prop=g)
        run.wait(jobs)
        if run.violation:
            return
    # The undefined-behaviour interpreter, and programs that must not compile.
    miri_shards(run, ck, miri, 8, 45 if run.tier == "quick" else 900)
    ck.log("Miri: %d s" % (time.time() - run.t0))
    if not run.violation:
        probes(run, ck, probing)


def miri_shards(run, ck, crate, n, secs):
    jobs = []
    gs = ["C11"] + guests()
    for i in range(n):
        # Half of the shards run C11's own workload.
        prop = "C11" if i % 2 == 0 else gs[1 + (i // 2 + run.seed) % (len(gs) - 1)] if len(gs) > 1 else "C11"
        f = os.path.join(run.work, "miri-%d" % i)
        args = ["--prop", prop, "--small", "1", "--time", str(secs), "--cases", "1000000", "--seed", str(run.seed),
                "--shard", str(i), "--shards", str(n), "--tier", run.tier, "--out", f, "--crumb", f + ".crumb"]
        env = ck.env_with({"MIRIFLAGS": ck.MIRI_FLAGS + " -Zmiri-seed=%d" % (run.seed * 1000 + i)})
        err = open(f + ".err", "w+b")
        jobs.append((prop, f, err, args, env, subprocess.Popen(ck.miri_cmd(crate, args), cwd=crate, env=env, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)))
    hard = time.time() + secs + 150
    done = 0
    for prop, f, err, args, env, p in jobs:
        try:
            p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            ck.end(p)
            run.counters["Miri shards ended before their last case"] = run.counters.get("Miri shards ended before their last case", 0) + 1
        err.seek(0)
        e = err.read().decode(errors="replace")
        if MEMORY.search(e):
            try:
                seed, case = open(f + ".crumb").read().split()[:2]
            except (OSError, ValueError):
                seed, case = run.seed, 0
            one = ["--prop", prop, "--small", "1", "--seed", str(seed), "--tier", run.tier, "--case", str(case)]
            if "memory leaked" in e:
                # Seen when the process ended; run it all again.
                one = args
            run.violate("Miri: " + ck.interesting(e[e.index("error: "):] if "error: " in e else e),
                        dict(cmd=ck.miri_cmd(crate, one), cwd=crate, env={"MIRIFLAGS": env["MIRIFLAGS"]}, memory=True))
            return
        if os.path.exists(f):
            j = json.load(open(f))
            done += j["cases"]
            k = "cases run (Miri, workload of %s)" % prop
            run.counters[k] = run.counters.get(k, 0) + j["cases"]
            if prop == "C11":
                run.evaluations += j["evaluations"]
                if j["violation"]:
                    v = j["violation"]
                    run.violate(v["message"], dict(cmd=ck.miri_cmd(crate, ["--prop", prop, "--small", "1", "--seed", str(run.seed), "--tier", run.tier, "--case", str(v["case"])]),
                                                   cwd=crate, env={"MIRIFLAGS": env["MIRIFLAGS"]}))
                    return
        elif p.returncode not in (0, None):
            run.counters["Miri shards without an answer"] = run.counters.get("Miri shards without an answer", 0) + 1
            ck.log("a Miri shard (workload of %s) gave no answer: " % prop + ck.interesting(e))
    if not done:
        raise ck.NoAnswer("no Miri shard gave an answer")


def probe_bins(ck, features):
    cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--bins", "--keep-going", "--message-format", "json",
           "--target-dir", os.path.join(ck.TARGET, "probes")] + features
    p = subprocess.run(cmd, cwd=os.path.join(ck.HERE, "probes"), env=ck.env_with(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out = set()
    for l in p.stdout.decode().splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("reason") == "compiler-artifact" and d["target"]["kind"] == ["bin"]:
                out.add(d["target"]["name"])
    return out


def build_probes(ck):
    sys.path.insert(0, os.path.join(ck.HERE, "probes"))
    import gen
    names = gen.generate(os.path.join(ck.HERE, "probes", "src", "bin"))
    ck.fresh("probes")
    return set(names), probe_bins(ck, ["--features", "control"]), probe_bins(ck, [])


def probes(run, ck, built):
    names, good, accepted = built
    run.counters["programs misusing a reference that the compiler refused"] = len((names & good) - accepted)
    run.counters["such programs whose sound form does not compile (skipped)"] = len(names - good)
    for n in sorted(accepted & good):
        # The compiler accepts it; is anything wrong when it runs?
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--target-dir", os.path.join(ck.TARGET, "miri-probes"), "--bin", n]
        flags = {"MIRIFLAGS": ck.MIRI_FLAGS}
        p = subprocess.run(cmd, cwd=os.path.join(ck.HERE, "probes"), env=ck.env_with(flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        e = p.stderr.decode(errors="replace")
        k = "misusing programs that compile and run without undefined behaviour"
        if MEMORY.search(e) and "Undefined Behavior" in e:
            run.violate("safe code that keeps a reference compiles (probe %s) and runs into undefined behaviour: %s" % (n, ck.interesting(e[e.index("error"):])),
                        dict(cmd=cmd, cwd=os.path.join(ck.HERE, "probes"), env=flags, memory=True))
            return
        run.counters[k] = run.counters.get(k, 0) + 1
    run.evaluations += len(names & good)
    if len(names & good) < 100:
        raise ck.NoAnswer("only %d of %d probes compile in their sound form" % (len(names & good), len(names)))


def replay(ck, rec):
    rep = rec["replay"]
    if rec["property"] == "C16":
        ck.build(["mon", "rel", "toy"])
        if "compare" in rep:
            d = c16_differ(ck, *rep["compare"])
            ck.log(d or "no difference")
            return 1 if d else 0
    if rec["property"] == "C11":
        build_probes(ck)
    p = subprocess.run(rep["cmd"], cwd=rep.get("cwd"), env=ck.env_with(rep.get("env")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode(errors="replace")
    ck.log(out[-6000:])
    return 1 if (MEMORY.search(out) if rep.get("memory") else p.returncode) else 0



# --- C16 -------------------------------------------------------------------
CROSS = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"]
C16_MIRI = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
MACHINE = {CROSS[0]: "32 bits, little endian", CROSS[1]: "64 bits, big endian"}


def c16_cmd(ck, crate, who, run, case, small):
    args = ["--prop", "C16", "--seed", str(run.seed), "--tier", run.tier, "--case", str(case), "--small", str(small), "--log", "1"]
    if who in CROSS:
        return dict(cmd=ck.miri_cmd(crate, args, who), cwd=crate, env={"MIRIFLAGS": C16_MIRI})
    return dict(cmd=[ck.binary(who)] + args, cwd=None, env=None)


def c16_differ(ck, a, b):
    """Where two runs of one case first differ."""
    out = []
    for c in (a, b):
        p = subprocess.run(c["cmd"], cwd=c["cwd"], env=ck.env_with(c["env"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out.append([l for l in p.stdout.decode(errors="replace").splitlines() if re.match("[0-9a-f]{16} ", l)])
    for i, (x, y) in enumerate(zip(*out)):
        if x != y:
            return "observation %d is %s against %s" % (i, x[:500], y[:500])
    if len(out[0]) != len(out[1]):
        return "%d observations against %d" % (len(out[0]), len(out[1]))
    return None


def c16_compare(run, ck, crate, what, who, small, one, two):
    """`one` and `two` hold digests by case of the runners `who`."""
    common = sorted(set(one) & set(two))
    run.evaluations += len(common)
    run.counters[what] = run.counters.get(what, 0) + len(common)
    for c in common:
        if one[c] != two[c]:
            a, b = (c16_cmd(ck, crate, w, run, c, small) for w in who)
            d = c16_differ(ck, a, b)
            run.violate("the same history (case %d) gives other results on %s than on %s: %s" % (c, who[1], who[0], d or "digest %s against %s" % (two[c], one[c])),
                        dict(compare=[a, b]))
            return


def c16_native(run, ck, variant, secs, small, n):
    """Digests by case of `n` shards; must be called with run.total == n."""
    jobs = run.shards(variant, n, secs, small=small)
    return jobs, lambda: dict((c, d) for j in jobs if os.path.exists(j[2]) for c, d in json.load(open(j[2])).get("digests", []))


def run_C16(run, ck, secs):
    crate = ck.build_miri(targets=CROSS)
    # The interpreted machines are compared with the same hash function.
    native = "toy" if crate == ck.MIRI_DIRS[0] else "mon"
    run.counters["other machines run the real hash function"] = int(native == "mon")
    ck.build(["mon", "rel", native])
    run.total = 4
    m, md = c16_native(run, ck, "mon", secs, 0, 4)
    r, rd = c16_native(run, ck, "rel", secs, 0, 4)
    run.wait(m + r)
    if run.violation:
        return
    c16_compare(run, ck, crate, "cases compared between debug and optimized builds", ("mon", "rel"), 0, md(), rd())
    if run.violation:
        return
    m, md = c16_native(run, ck, native, 4, 1, 4)
    run.wait(m)
    here = md()
    if run.violation:
        return
    secs = 70 if run.tier == "quick" else 1500
    jobs = []
    for t in CROSS:
        for i in range(4):
            f = os.path.join(run.work, "cross-%s-%d" % (t, i))
            args = ["--prop", "C16", "--small", "1", "--time", str(secs), "--cases", "1000000", "--seed", str(run.seed), "--shard", str(i), "--shards", "4", "--tier", run.tier, "--out", f, "--crumb", f + ".crumb"]
            env = ck.env_with({"MIRIFLAGS": C16_MIRI + " -Zmiri-seed=%d" % i})
            err = open(f + ".err", "w+b")
            jobs.append((t, f, err, subprocess.Popen(ck.miri_cmd(crate, args, t), cwd=crate, env=env, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)))
    hard = time.time() + secs + 200
    digests = {t: {} for t in CROSS}
    for t, f, err, p in jobs:
        try:
            p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            ck.end(p)
            run.counters["shards of other machines ended before their last case"] = run.counters.get("shards of other machines ended before their last case", 0) + 1
            continue
        err.seek(0)
        e = err.read().decode(errors="replace")
        if os.path.exists(f):
            j = json.load(open(f))
            digests[t].update(j.get("digests", []))
            if j["violation"]:
                v = j["violation"]
                c = c16_cmd(ck, crate, t, run, v["case"], 1)
                run.violate("on %s (%s): %s" % (t, MACHINE[t], v["message"]), c)
                return
        elif p.returncode:
            try:
                case = open(f + ".crumb").read().split()[1]
            except (OSError, IndexError):
                raise ck.NoAnswer("a shard on %s gave no answer: %s" % (t, ck.interesting(e)))
            if case in map(str, here) and ("overflow" in e or "panicked" in e or "abort" in e):
                run.violate("on %s (%s) case %s dies, which is well on this machine: %s" % (t, MACHINE[t], case, ck.interesting(e)), c16_cmd(ck, crate, t, run, case, 1))
                return
            raise ck.NoAnswer("a shard on %s gave no answer: %s" % (t, ck.interesting(e)))
    for t in CROSS:
        c16_compare(run, ck, crate, "cases compared with %s (%s)" % (t, MACHINE[t]), (native, t), 1, here, digests[t])
