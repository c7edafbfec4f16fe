"""Takes the runtime's lib.rs apart into top-level items and leaves out those that only matter to a collator (consensus, the
relay chain, WASM, the runtime APIs of others, pallets that are not part of this repository and are replaced by stand-ins). Everything else is
kept as it stands, in order; nothing that is kept is rewritten except that the stand-in pallets implement their own Config."""
import re

#: SDK pallets whose configuration the stand-ins (shim/sdk) provide for every runtime
STANDINS = """pallet_multisig pallet_timestamp pallet_authorship pallet_scheduler pallet_preimage pallet_democracy pallet_treasury
cumulus_pallet_parachain_system parachain_info cumulus_pallet_aura_ext pallet_session pallet_aura pallet_collator_selection pallet_sudo""".split()
DROP = [r"include!\(", r"pub fn wasm_binary_unwrap\b", r"use sp_api::impl_runtime_apis\b", r"impl_opaque_keys!", r"impl_runtime_apis!", r"cumulus_pallet_parachain_system::register_validate_block!",
        r"mod benches\b", r"extern crate frame_benchmarking", r"mod tests\b", r"type ConsensusHook\b", r"(pub )?(fn native_version)\b"]
DROP += [rf"impl {p}::Config for Runtime\b" for p in STANDINS]


def items(src):
    """Splits Rust source into top-level items (with the comments and attributes before them)."""
    out, i, start, n = [], 0, 0, len(src)
    depth = 0
    body = False  # inside the item proper (not a comment or attribute before it)
    def skip(i):
        """Index after the comment, string or character at i, or i."""
        if src.startswith("//", i):
            j = src.find("\n", i)
            return n if j < 0 else j
        if src.startswith("/*", i):
            d, i = 1, i + 2
            while d and i < n:
                if src.startswith("/*", i): d, i = d + 1, i + 2
                elif src.startswith("*/", i): d, i = d - 1, i + 2
                else: i += 1
            return i
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_")):
            return src.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
        if src[i] == '"':
            i += 1
            while src[i] != '"':
                i += 2 if src[i] == "\\" else 1
            return i + 1
        m = re.compile(r"'(\\(?:u\{[^}]*\}|x..|.)|[^\\'])'").match(src, i)
        if m:
            return m.end()
        return i
    attr = False
    while i < n:
        j = skip(i)
        if j != i:
            i = j
            continue
        c = src[i]
        if depth == 0 and not body and not attr and c == "#" and re.compile(r"#!?\[").match(src, i):
            attr = True
            inner = src[i + 1] == "!"
        elif c in "([{":
            depth += 1
            if not attr: body = True
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                if attr and c == "]":
                    attr = False
                    if inner:
                        out.append(src[start:i + 1]); start = i + 1; body = False
                elif c == "}":
                    # `use a::{b};`, `const X: T = T { .. };` and `macro! {..}` go on or end here
                    k = re.compile(r"\s*").match(src, i + 1).end()
                    head = strip(src[start:i + 1])
                    if re.match(r"(pub(\([^)]*\))? )?(use|const|static|type)\b", head) and not re.match(r"(pub(\([^)]*\))? )?const (unsafe )?fn\b", head) or (k < n and src[k] == ";"):
                        pass
                    else:
                        out.append(src[start:i + 1]); start = i + 1; body = False
        elif c == ";" and depth == 0:
            out.append(src[start:i + 1]); start = i + 1; body = False
        elif not c.isspace() and not attr:
            body = True
        i += 1
    out.append(src[start:])
    return out


def strip(item):
    """The item without leading comments and attributes."""
    while True:
        s = re.sub(r"^(\s+|//[^\n]*\n?|/\*.*?\*/)", "", item, flags=re.S)
        if s.startswith("#"):
            d, k = 0, 0
            for k, ch in enumerate(s):
                if ch == "[": d += 1
                if ch == "]":
                    d -= 1
                    if d == 0: break
            s = s[k + 1:]
        if s == item:
            return s
        item = s


def own_apis(item):
    """The runtime APIs of this repository's pallets."""
    body = item[item.index("{") + 1:item.rindex("}")]
    ours = [it for it in items(body) if re.match(r"impl (pallet_(messages|schemas|msa|stateful_storage|handles|frequency_tx_payment)_runtime_api|system_runtime_api|frame_system_rpc_runtime_api)::", strip(it))]
    return "\nsp_api::impl_runtime_apis! {" + "".join(ours) + "\n}\n"


def origins(pallet, item):
    """Who may do what in a pallet whose configuration is replaced: its origins, as types of their own."""
    return "".join(f"pub type {''.join(w.capitalize() for w in pallet.split('_'))}{n} ={t};\n" for n, t in re.findall(r"\btype (\w+Origin) =([^;]*);", item))


def extract(src):
    keep, dropped = [], []
    for it in items(src):
        head = strip(it)
        if re.match(r"impl_runtime_apis!", head):
            keep.append(own_apis(it))
        for p in STANDINS:
            if re.match(rf"impl {p}::Config for Runtime\b", head):
                keep.append("\n" + origins(p, head))
        if any(re.match(p, head) for p in DROP):
            dropped.append(head.split("\n")[0][:80])
        else:
            keep.append(it)
    return "".join(keep) + "\nconst RUNTIME_API_VERSIONS: sp_version::ApisVec = ();\n", dropped


if __name__ == "__main__":
    import sys
    k, d = extract(open("/repo/runtime/frequency/src/lib.rs").read())
    print("\n".join(d)); print(len(k))
    for it in items(open("/repo/runtime/frequency/src/lib.rs").read()):
        print(repr(strip(it)[:70]))
