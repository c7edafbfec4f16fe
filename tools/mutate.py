#!/usr/bin/env python3
"""Mutation sweep: single-site source mutants of /repo, run through the checks in scratch copies.
usage: mutate.py GROUP[,GROUP..] WORKERS [LIMIT] -> /tmp/mut/<group>.jsonl (one line per mutant: killed by / survived / nobuild)"""
import concurrent.futures, json, os, queue, random, re, shutil, subprocess, sys, time

GROUPS = {  # sources -> (check, properties)
    "hu": (["pallets/handles/src/handles-utils/src"], [("hu", ["C01", "C02", "C03", "C04"]), ("hnd", ["C05", "C06"])]),
    "avro": (["common/helpers/src"], [("avro", ["C35"]), ("rpc", ["C25"])]),
    "seal": (["node/cli-opt/src", "node/service/src/block_sealing.rs"], [("seal", ["C36"])]),
    "trel": (["pallets/time-release/src"], [("trel", ["C30", "C31", "C32"]), ("mig", ["C39"])]),
    "hnd": (["pallets/handles/src/lib.rs", "pallets/handles/src/types.rs"], [("hnd", ["C05", "C06", "C07"])]),
    "msa": (["pallets/msa/src/lib.rs", "pallets/msa/src/types.rs"], [("msa", ["C08", "C09", "C10", "C11", "C12"]), ("rt", ["C19"])]),
    "ofw": (["pallets/msa/src/offchain_storage.rs", "common/primitives/src/offchain.rs"], [("ofw", ["C37"])]),
    "cap": (["pallets/capacity/src/lib.rs", "pallets/capacity/src/types.rs"], [("cap", ["C13", "C14", "C15"])]),
    "sch": (["pallets/schemas/src"], [("sch", ["C20", "C21", "C22"]), ("mig", ["C39"])]),
    "msg": (["pallets/messages/src"], [("msg", ["C23", "C24"]), ("mig", ["C39"])]),
    "ss": (["pallets/stateful-storage/src"], [("ss", ["C26", "C27", "C28", "C29"])]),
    "ftp": (["pallets/frequency-tx-payment/src/lib.rs", "pallets/frequency-tx-payment/src/payment.rs"], [("rt", ["C16", "C17", "C18"]), ("cap", ["C13"])]),
    "pk": (["pallets/passkey/src/lib.rs", "pallets/passkey/src/types.rs"], [("rt", ["C33", "C34"])]),
    "rtc": (["runtime/common/src"], [("rt", ["C16", "C17", "C18", "C19", "C33"])]),
    "rtf": (["runtime/frequency/src/lib.rs"], [("rt", ["C16", "C17", "C18", "C19", "C33"]), ("cap", ["C13"])]),
    "prim": (["common/primitives/src"], [("msg", ["C23", "C24"]), ("ss", ["C26", "C27", "C28", "C29"]), ("msa", ["C08", "C11"]), ("rpc", ["C25", "C38"]), ("sch", ["C20", "C21"]), ("hnd", ["C05"]), ("rt", ["C34"]), ("ofw", ["C37"])]),
    "rpc": ([f"pallets/{p}/src/rpc/src" for p in ("msa", "messages", "schemas", "handles", "stateful-storage", "frequency-tx-payment")], [("rpc", ["C25", "C38"])]),
}
SKIP = re.compile(r"(tests?|mock|benchmarking|weights|test_common|migration/v3|stateful_child_tree_tests)(\.rs|/)")
OPS = [
    (r"(?<![=!<>+\-*/&|])==(?!=)", ["!="]), (r"!=", ["=="]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\+= ", ["-= "]),
    (r"saturating_add\(", ["saturating_sub("]), (r"saturating_sub\(", ["saturating_add("]), (r"checked_add\(", ["checked_sub("]), (r"checked_sub\(", ["checked_add("]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".is_empty() == false"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[( ])!(?=[a-zA-Z])", [""]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"(?<![\w.\"])0(?![\w.])(?:u\d+)?", ["1"]), (r"(?<![\w.\"])1(?![\w.])(?:u\d+)?", ["0", "2"]), (r"\bSome\((\w+)\) =>", ["Some(_) if false =>"]),
    (r"\.\.=", [".."]), (r"(?<=[\w)])\.\.(?=[\w(])(?!=)", ["..="]), (r"\bBlockNumber::zero\(\)", ["One::one()"]), (r"\.rev\(\)", [""]),
    (r"\.skip\((\w+)\)", [""]), (r"\.take\((\w+)\)", [""]), (r"\.filter\((.*)\)$", [""]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]), (r"\.saturating_mul\(", [".saturating_add("]),
    (r"Pays::No", ["Pays::Yes"]), (r"\.unwrap_or_default\(\)", [".unwrap_or_default().min(Default::default())"]), (r"\.retain\(\|(\w+)\| ", [r".retain(|\1| !"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]),
]
STMT = re.compile(r"^\s*(?!let |use |pub |return|type |const |static |#|//|\}|impl |fn |mod |where |assert|log)([\w:<>.&*]+(\.|::|\(|!).*);\s*$")


def mutants(root, src):
    files = []
    for s in src:
        p = f"{root}/{s}"
        if os.path.isfile(p):
            files.append(s)
        else:
            for d, _, fs in os.walk(p):
                files += [os.path.relpath(f"{d}/{f}", root) for f in sorted(fs) if f.endswith(".rs")]
    out, seen = [], set()
    for f in files:
        if f in seen or SKIP.search("/" + f):
            continue
        seen.add(f)
        lines = open(f"{root}/{f}", encoding="utf-8").read().split("\n")
        depth_skip = None
        i = 0
        while i < len(lines):
            l = lines[i]
            st = l.strip()
            if st.startswith("#[cfg(test)]") or st.startswith("#[cfg(feature = \"runtime-benchmarks\")]") or st.startswith("#[cfg(feature = \"try-runtime\")]"):
                # skip the item: to the first line that closes at the same indentation
                ind = re.match(r"\s*", l).group()
                j = i + 1
                while j < len(lines) and lines[j].strip().startswith("#"):
                    j += 1
                if j < len(lines) and lines[j].rstrip().endswith(";"):
                    i = j + 1
                    continue
                while j < len(lines) and not (lines[j].startswith(ind + "}") ):
                    j += 1
                i = j + 1
                continue
            i += 1
            if not st or st.startswith(("//", "#[", "use ", "pub use", "log::", "///", "*")):
                continue
            code = re.split(r"\s//", l)[0]
            if re.search(r"[wW]eight|\breads|\bwrites|log!|metrics|telemetry", code):
                continue
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        n = code[: m.start()] + m.expand(r) + code[m.end():]
                        if n != code:
                            out.append((f, i - 1, n))
            if STMT.match(code):
                out.append((f, i - 1, ""))
                # delete the statement
    return out


def worker_setup(i):
    v, r = f"/tmp/mv{i}", f"/tmp/mr{i}"
    if not os.path.exists(r):
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    if not os.path.exists(v):
        shutil.copytree("/verif", v, ignore=shutil.ignore_patterns("seeded", ".git", "build", "evidence"))
        os.makedirs(v + "/evidence", exist_ok=True)
    else:
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", ".git", "--exclude", "build", "--exclude", "evidence", "/verif/", v + "/"], check=False)
    subprocess.run(["git", "-C", r, "fetch", "-q"], check=True)
    subprocess.run(["git", "-C", r, "reset", "-q", "--hard", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()], check=True)
    return v, r


def check(v, r, c, p, t=800):
    e = dict(os.environ, REPO_DIR=r, VERIF_SEED="1", VERIF_TIER="quick")
    pr = subprocess.Popen(["nice", "-n", "15", "./run.sh", c, p], cwd=v, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = pr.communicate(timeout=t)
        return pr.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, 9)
        pr.communicate()
        return 124, "timeout"


def main():
    os.makedirs("/tmp/mut", exist_ok=True)
    nw = int(sys.argv[2])
    limit = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
    slots = queue.Queue()
    for i in range(nw):
        slots.put(worker_setup(i))
    for g in sys.argv[1].split(","):
        src, checks = GROUPS[g]
        ms = mutants("/repo", src)
        done = set()
        outp = f"/tmp/mut/{g}.jsonl"
        if os.path.exists(outp):
            done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(outp))}
        random.Random(1).shuffle(ms)
        ms = [m for m in ms[:limit] if (m[0], m[1] + 1, m[2].strip()) not in done]
        print(g, len(ms), "mutants", flush=True)

        def one(m):
            f, ln, new = m
            v, r = slots.get()
            try:
                p = f"{r}/{f}"
                orig = open(p, encoding="utf-8").read()
                lines = orig.split("\n")
                old = lines[ln]
                lines[ln] = new
                open(p, "w", encoding="utf-8").write("\n".join(lines))
                res, why = "SURVIVED", ""
                t0 = time.time()
                try:
                    for c, ps in checks:
                        for q in ps:
                            rc, o = check(v, r, c, q)
                            if rc == 1:
                                res, why = "killed", q
                            elif rc == 2 and "does not build" in o:
                                res, why = "nobuild", ""
                            elif rc != 0:
                                res, why = "noanswer", f"{q} rc={rc} " + o[-300:]
                            if rc != 0:
                                break
                        if res != "SURVIVED":
                            break
                finally:
                    open(p, "w", encoding="utf-8").write(orig)
                d = {"file": f, "line": ln + 1, "old": old.strip(), "new": new.strip(), "res": res, "why": why, "t": round(time.time() - t0)}
                with open(outp, "a") as fh:
                    fh.write(json.dumps(d) + "\n")
                return d
            finally:
                slots.put((v, r))

        with concurrent.futures.ThreadPoolExecutor(nw) as ex:
            for d in ex.map(one, ms):
                if d["res"] in ("SURVIVED", "noanswer"):
                    print(json.dumps(d), flush=True)


main()
