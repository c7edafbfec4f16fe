"""Writes /verif/build/ws: a cargo workspace in which the crates of /repo build, unmodified, against the mini FRAME of
/verif/shim. Sources are symlinks into /repo; only manifests are derived. Nothing is rewritten that did not change."""
import json, os, re, shutil, sys, tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO_DIR", "/repo")
WS = os.path.join(HERE, "build", "ws")
#: member of /repo -> place in the workspace
MEMBERS = {
    "common/primitives": "common/primitives",
    "common/helpers": "common/helpers",
    "pallets/capacity": "pallets/capacity",
    "pallets/frequency-tx-payment": "pallets/frequency-tx-payment",
    "pallets/handles": "pallets/handles",
    "pallets/messages": "pallets/messages",
    "pallets/msa": "pallets/msa",
    "pallets/passkey": "pallets/passkey",
    "pallets/schemas": "pallets/schemas",
    "pallets/stateful-storage": "pallets/stateful-storage",
    "pallets/time-release": "pallets/time-release",
    "runtime/common": "runtime/common",
    "runtime/system-runtime-api": "runtime/system-runtime-api",
}
for p in ("capacity", "frequency-tx-payment", "handles", "messages", "msa", "schemas", "stateful-storage"):
    for k in ("runtime-api", "rpc"):
        if os.path.exists(f"{REPO}/pallets/{p}/src/{k}/Cargo.toml"):
            MEMBERS[f"pallets/{p}/src/{k}"] = f"{k}/{p}"
#: linked as a whole (no git dependency)
WHOLE = {"pallets/handles/src/handles-utils": "handles-utils", "node/cli-opt": "node/cli-opt"}
PLACE = {**MEMBERS, **WHOLE}
DROP_DEPS = {"frame-benchmarking", "frame-system-benchmarking", "frame-try-runtime", "substrate-wasm-builder"}


def toml(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    return json.dumps(v, ensure_ascii=False)


def dump(tables):
    return "".join(f"[{n}]\n" + "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in t.items()) + "\n" for n, t in tables)


def load(path):
    with open(path, "rb") as f:
        return tomllib.load(f)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    elif os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def link(target, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.remove(path)
    os.symlink(target, path)


def forget_other_tree():
    """cargo judges by modification times: what was built from another tree must not pass for a build of this one"""
    stamp = os.path.join(HERE, "build", "tree")
    was = open(stamp).read() if os.path.exists(stamp) else ""
    if was == REPO:
        return
    fp = os.path.join(HERE, "build", "target", "debug", ".fingerprint")
    ours = ("pallet-", "common-", "handles-utils", "cli-opt", "runtime", "frequency", "system-runtime-api", "helpers-lite") + tuple(os.listdir(os.path.join(HERE, "checks")))
    for d in os.listdir(fp) if os.path.isdir(fp) else []:
        if d.startswith(ours):
            shutil.rmtree(os.path.join(fp, d))
    write(stamp, REPO)


def main():
    forget_other_tree()
    root = load(f"{REPO}/Cargo.toml")
    shared = root["workspace"]["dependencies"]
    sys.path.insert(0, os.path.join(HERE, "shim"))
    sys.path.insert(0, HERE)
    from facades import FACADES, NODE_FACADES  # noqa

    def shim(name):
        return name in FACADES

    def dep(name, d, place):
        """The dependency as this workspace has it, or None."""
        if name in DROP_DEPS:
            return None
        real = d.get("package", name) if isinstance(d, dict) else name
        out = {}
        if isinstance(d, dict):
            if d.get("workspace"):
                base = shared.get(name, {})
                if isinstance(base, str):
                    out["version"] = base
                else:
                    out = {k: v for k, v in base.items() if k not in ("git", "branch", "rev", "tag", "path")}
                    real = base.get("package", real)
                if "features" in d:
                    out["features"] = sorted(set(out.get("features", [])) | set(d["features"]))
                if "default-features" in d:
                    out["default-features"] = d["default-features"]
            else:
                out = {k: v for k, v in d.items() if k not in ("git", "branch", "rev", "tag", "path")}
            if d.get("optional"):
                out["optional"] = True
            if "path" in d:
                full = os.path.normpath(os.path.join(place, d["path"]))
                if full in PLACE:
                    out["path"] = f"{WS}/{PLACE[full]}"
                    out.pop("version", None)
                    return out
        else:
            out["version"] = d
        if shim(real):
            r = {"path": f"{WS}/facades/{real}"}
            if real != name:
                r["package"] = real
            if out.get("optional"):
                r["optional"] = True
            return r
        if isinstance(d, dict) and ("git" in d or (d.get("workspace") and isinstance(shared.get(name), dict) and "git" in shared[name])):
            return None
        if isinstance(d, dict) and "path" in d:
            return None
        return out

    members = []
    for src, dst in WHOLE.items():
        link(f"{REPO}/{src}", f"{WS}/{dst}")
        members.append(dst)
    for src, dst in MEMBERS.items():
        if not os.path.exists(f"{REPO}/{src}/Cargo.toml"):
            continue
        m = load(f"{REPO}/{src}/Cargo.toml")
        tables, have = [], set()
        pk = dict(m["package"])
        pk.pop("metadata", None)
        pk.pop("readme", None)
        pk["build"] = False
        tables.append(("package", pk))
        lib = dict(m.get("lib", {}))
        lib["doctest"] = False
        tables.append(("lib", lib))
        gone = set()
        for section in ("dependencies", "dev-dependencies"):
            t = {}
            for k, v in m.get(section, {}).items():
                x = dep(k, v, src)
                if x is None:
                    gone.add(k)
                else:
                    t[k] = x
                    have.add(k)
            if section == "dependencies":
                t["sdk"] = {"path": f"{WS}/shim/sdk"}
                have.add("sdk")
            if section == "dependencies" and src == "common/helpers":
                for k in gone & {"jsonrpsee"}:
                    pass
            tables.append((section, t))
        deps = {**m.get("dependencies", {}), **m.get("dev-dependencies", {})}

        def keep(f):
            d = re.split("[/?]", f.removeprefix("dep:"))
            if len(d) == 1 and not f.startswith("dep:"):
                return f in m.get("features", {}) or f in have
            if d[0] not in have:
                return False
            if len(d) > 1:
                v = deps.get(d[0])
                real = v.get("package", d[0]) if isinstance(v, dict) else d[0]
                if shim(real) or (isinstance(v, dict) and v.get("workspace") and isinstance(shared.get(d[0]), dict) and shim(shared[d[0]].get("package", d[0]))):
                    return False
            return True

        feats = {k: [x for x in v if keep(x)] for k, v in m.get("features", {}).items()}
        tables.append(("features", feats))
        write(f"{WS}/{dst}/Cargo.toml", dump(tables))
        link(f"{REPO}/{src}/src", f"{WS}/{dst}/src")
        members.append(dst)
    # the Avro helpers alone (the rest of common/helpers needs the RPC server)
    write(f"{WS}/helpers-lite/Cargo.toml", dump([
        ("package", {"name": "helpers-lite", "version": "0.0.0", "edition": "2021"}), ("lib", {"doctest": False}),
        ("dependencies", {k: dep(k, v, "common/helpers") for k, v in load(f"{REPO}/common/helpers/Cargo.toml")["dependencies"].items() if k in ("apache-avro", "thiserror")})]))
    write(f"{WS}/helpers-lite/src/lib.rs", "pub mod avro;\npub mod types;\n")
    for f in ("avro", "types"):
        link(f"{REPO}/common/helpers/src/{f}.rs", f"{WS}/helpers-lite/src/{f}.rs")
    members.append("helpers-lite")
    # one module of the node
    def lite(name, modules, deps):
        write(f"{WS}/{name}/Cargo.toml", dump([
            ("package", {"name": name, "version": "0.0.0", "edition": "2021"}), ("lib", {"doctest": False}),
            ("dependencies", {**{k: dep(k, v, "node/service") for k, v in load(f"{REPO}/node/service/Cargo.toml")["dependencies"].items() if k in deps},
                              "sdk": {"path": f"{WS}/shim/sdk"}})]))
        members.append(name)
        for f, src in modules.items():
            link(f"{REPO}/{src}", f"{WS}/{name}/src/{f}.rs")
    lite("frequency-rpc", {"frequency_rpc": "node/service/src/rpc/frequency_rpc.rs"},
         "common-helpers common-primitives jsonrpsee parity-scale-codec sc-transaction-pool-api sp-api sp-blockchain sp-runtime substrate-frame-rpc-system system-runtime-api".split())
    write(f"{WS}/frequency-rpc/src/lib.rs", "pub mod frequency_rpc;\npub use frequency_rpc::*;\n")
    # block sealing and the command line of the local chain
    def node_crate(name, modules, deps, lib, src="node/service", extra=(), **tables):
        have = load(f"{REPO}/{src}/Cargo.toml")["dependencies"]
        t = {}
        for k in deps:
            if k in NODE_FACADES:
                t[k] = {"path": f"{WS}/facades/nk-{k}", "package": f"nk-{k}"}
            elif k in have:
                x = dep(k, have[k], src)
                if x is not None:
                    t[k] = x
        t.update({"sdk": {"path": f"{WS}/shim/sdk"}, "nodekit": {"path": f"{WS}/shim/node"}, **dict(extra)})
        write(f"{WS}/{name}/Cargo.toml", dump([("package", {"name": name, "version": "0.0.0", "edition": "2021"}), ("lib", {"doctest": False}), ("dependencies", t)] + list(tables.items())))
        write(f"{WS}/{name}/src/lib.rs", lib)
        for f, s in modules.items():
            link(f"{REPO}/{s}", f"{WS}/{name}/src/{f}.rs")
        members.append(name)
    every = sorted(set(load(f"{REPO}/node/service/Cargo.toml")["dependencies"]) | set(NODE_FACADES))
    common = [k for k in every if k in NODE_FACADES or k in ("cli-opt", "log", "parity-scale-codec", "sp-api", "sp-blockchain", "sp-runtime", "sp-core", "common-primitives", "hex", "serde", "serde_json")]
    node_crate("frequency-service", {"block_sealing": "node/service/src/block_sealing.rs"}, common, """pub mod block_sealing;
pub mod service { pub use nodekit::service::new_partial; }
pub mod rpc {
\tpub use nodekit::service::DenyUnsafe;
\tpub struct FullDeps<C, P> { pub client: std::sync::Arc<C>, pub pool: std::sync::Arc<P>, pub deny_unsafe: DenyUnsafe, pub command_sink: Option<Sink> }
\tpub type Sink = futures::channel::mpsc::Sender<sc_consensus_manual_seal::EngineCommand<nodekit::service::Hash>>;
\tpub struct Built { pub deny_unsafe: DenyUnsafe, pub command_sink: Option<Sink>, pub offchain_db: bool }
\tpub fn create_full<C, P>(deps: FullDeps<C, P>, db: Option<()>) -> Result<Built, sc_service::Error> {
\t\tOk(Built { deny_unsafe: deps.deny_unsafe, command_sink: deps.command_sink, offchain_db: db.is_some() })
\t}
}
pub mod chain_spec {
\tpub struct Extensions { pub relay_chain: String }
\timpl Extensions { pub fn try_get(_: &dyn sc_service::ChainSpec) -> Option<&'static Self> { None } }
}
""")
    node_crate("frequency-cli", {"cli": "node/cli/src/cli.rs", "run_as_localchain": "node/cli/src/run_as_localchain.rs"}, [k for k in common] + ["clap"], """pub mod cli;
pub mod run_as_localchain;
pub use nodekit::cli::{ExportMetadataCmd, ExportRuntimeVersionCmd};
impl sc_cli::SubstrateCli for cli::Cli {}
""", src="node/cli", extra={"frequency-service": {"path": f"{WS}/frequency-service"}}.items(), features={"default": ["frequency-no-relay"], "frequency-no-relay": []})
    # the runtime as mainnet has it and as the local chain has it, each over the constants of its own
    import rt
    with open(f"{REPO}/runtime/frequency/src/lib.rs", encoding="utf-8") as f:
        source, _ = rt.extract(f.read())
    for name, feature in (("main", "frequency"), ("dev", "frequency-no-relay")):
        m = load(f"{REPO}/runtime/common/Cargo.toml")
        write(f"{WS}/common-runtime-{name}/Cargo.toml", dump([
            ("package", {"name": f"common-runtime-{name}", "version": "0.0.0", "edition": "2021"}), ("lib", {"name": "common_runtime", "doctest": False, "test": False}),
            ("dependencies", {**{k: {a: b for a, b in x.items() if a != "default-features" or "path" not in x} if isinstance(x, dict) else x for k, v in m["dependencies"].items() if (x := dep(k, v, "runtime/common")) is not None}, "sdk": {"path": f"{WS}/shim/sdk"}}),
            ("features", {"default": ["std", feature], "std": [], feature: []})]))
        link(f"{REPO}/runtime/common/src", f"{WS}/common-runtime-{name}/src")
        m = load(f"{REPO}/runtime/frequency/Cargo.toml")
        deps = {k: x for k, v in m["dependencies"].items() if (x := dep(k, v, "runtime/frequency")) is not None}
        deps = {k: {a: b for a, b in v.items() if a != "optional"} if isinstance(v, dict) else v for k, v in deps.items()}
        for v in deps.values():
            if isinstance(v, dict) and "path" in v: v.pop("default-features", None)
        deps["common-runtime"] = {"path": f"{WS}/common-runtime-{name}", "package": f"common-runtime-{name}"}
        deps["sdk"] = {"path": f"{WS}/shim/sdk"}
        write(f"{WS}/runtime-{name}/Cargo.toml", dump([
            ("package", {"name": f"runtime-{name}", "version": "0.0.0", "edition": "2021"}), ("lib", {"doctest": False, "test": False}),
            ("dependencies", deps), ("features", {"default": ["std", feature], "std": [], feature: []})]))
        write(f"{WS}/runtime-{name}/src/lib.rs", source)
        members += [f"common-runtime-{name}", f"runtime-{name}"]
    for name, text in NODE_FACADES.items():
        d = f"{WS}/facades/nk-{name}"
        write(f"{d}/Cargo.toml", dump([("package", {"name": f"nk-{name}", "version": "99.0.0", "edition": "2021"}), ("lib", {"name": name.replace("-", "_"), "doctest": False, "test": False}),
                                       ("dependencies", {"sdk": {"path": f"{WS}/shim/sdk"}, "nodekit": {"path": f"{WS}/shim/node"}})]))
        write(f"{d}/src/lib.rs", text)
        members.append(f"facades/nk-{name}")
    for name, text in FACADES.items():
        d = f"{WS}/facades/{name}"
        feats = {k: [] for k in ("default", "std", "runtime-benchmarks", "try-runtime", "derive", "serde", "max-encoded-len", "digest_0_10")}
        deps = {"sdk": {"path": f"{WS}/shim/sdk"}}
        libname = name.replace("-", "_")
        write(f"{d}/Cargo.toml", dump([
            ("package", {"name": name, "version": "99.0.0", "edition": "2021"}),
            ("lib", {"name": "parachain_info" if name == "staging-parachain-info" else libname, "doctest": False, "test": False}),
            ("dependencies", deps), ("features", feats)]))
        write(f"{d}/src/lib.rs", text)
        members.append(f"facades/{name}")
    if os.path.isdir(f"{HERE}/shim"):
        link(f"{HERE}/shim", f"{WS}/shim")
    link(f"{HERE}/checks", f"{WS}/checks")
    for c in ("shim/sdk", "shim/sdk-macros", "shim/node"):
        if os.path.exists(f"{HERE}/{c}/Cargo.toml"):
            members.append(c)
    for c in sorted(os.listdir(f"{HERE}/checks")):
        if os.path.exists(f"{HERE}/checks/{c}/Cargo.toml"):
            members.append(f"checks/{c}")
    wsdeps = {}
    for k, v in shared.items():
        if not (isinstance(v, dict) and "git" in v) and not shim(v.get("package", k) if isinstance(v, dict) else k):
            wsdeps[k] = v
    write(f"{WS}/Cargo.toml", dump([
        ("workspace", {"members": members, "resolver": "2"}),
        ("workspace.dependencies", wsdeps),
        ("profile.dev", {"opt-level": 1, "debug": False, "incremental": False, "overflow-checks": True, "debug-assertions": True, "panic": "unwind"}),
        ('profile.dev.package."avro"', {"opt-level": 2}),
        ("profile.dev.build-override", {"opt-level": 0}),
        ('profile.dev.package."mc"', {"opt-level": 3}),
        ('profile.dev.package."sdk"', {"opt-level": 2}),
        ('profile.dev.package."handles-utils"', {"opt-level": 2}),
        ('profile.dev.package."hu"', {"opt-level": 2}),
        ('profile.dev.package."unicode-normalization"', {"opt-level": 3}),
    ]))
    with open(f"{REPO}/Cargo.lock", encoding="utf-8") as f:
        lock = f.read()
    stamp = f"{WS}/.repo-Cargo.lock"
    key = lock + json.dumps(members)
    old = open(stamp, encoding="utf-8").read() if os.path.exists(stamp) else None
    if key != old or not os.path.exists(f"{WS}/Cargo.lock"):
        write(f"{WS}/Cargo.lock", lock)
        write(stamp, key)


main()
