
U = "update/src/main.rs"
SPECS = []

PRE = """#!/bin/bash
# Run with cwd at the repository: exit 0 if the update tool behaves.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/cfgdemo.XXXXXX) || exit 3
trap 'rm -rf -- "$w"' EXIT
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$w/target" cargo build -q --offline --manifest-path "$repo/update/Cargo.toml" || exit 3
mkdir -p "$w/t/src/targets"
cp "$repo/README.md" "$w/t/README.md"
cp "$repo/src/targets/builtins.rs" "$w/t/src/targets/builtins.rs"
cp "$here/rustc.sh" "$w/rustc.sh"; chmod +x "$w/rustc.sh"
cd "$w/t" || exit 3
before=$(cat README.md src/targets/builtins.rs | sha256sum)
RUSTC="$w/rustc.sh" timeout 60 "$w/target/debug/update" > "$w/log" 2>&1
rc=$?
after=$(cat README.md src/targets/builtins.rs | sha256sum)
"""

RUSTC = """#!/bin/bash
case "$*" in
--version) echo "rustc 1.90.1 (0123abcd 2030-01-01)"; exit 0;;
"--print target-list") printf '%s\\n' aa-bb-cc dd-ee-ff gg-hh-ii; exit 0;;
esac
t=$(echo "$*" | sed 's/.*--target \\([^ ]*\\).*/\\1/')
body() {
cat <<EOF
debug_assertions
panic="unwind"
target_abi="$1"
target_arch="$2"
target_endian="little"
target_env="$3"
target_family="unix"
target_has_atomic
target_has_atomic="16"
target_has_atomic="32"
target_has_atomic="8"
target_has_atomic="ptr"
target_os="$4"
target_pointer_width="32"
target_vendor="$5"
unix
EOF
}
@HOOK@
case $t in
aa-bb-cc) body "" arch_a gnu linux unknown;;
dd-ee-ff) body "e-a-b-i" arch_b "" none "v-e-n";;
gg-hh-ii) body "" arch_c "x-y-z" "o-s-x" apple;;
esac
exit 0
"""


def u(id, property, needs, breaks, edits, post, hook="", **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo_sh=PRE + post,
                      files={"rustc.sh": RUSTC.replace("@HOOK@", hook)}, **kw))


GOOD = """[ "$rc" = 0 ] || { cat "$w/log" >&2; exit 1; }
"""
u("c21-hyphen-once", "C21", "a value with two or more hyphens",
  "only the first hyphen of a value is replaced in the name of its constant",
  [(U, 'let ident = thing.replace("-", "_");', 'let ident = thing.replacen("-", "_", 1);')],
  GOOD + """grep -q 'pub const e_a_b_i: Abi = Abi::new_const("e-a-b-i")' src/targets/builtins.rs || exit 1
grep -q 'pub const x_y_z: Env' src/targets/builtins.rs || exit 1
""")
u("c21-vendor-unknown", "C21", "a target whose vendor is not the one of the target before it",
  "an unknown vendor is written as no vendor",
  [(U, """                        "target_vendor" => {
                            if !val.is_empty() {""", """                        "target_vendor" => {
                            if !val.is_empty() && val != "unknown" {""")],
  GOOD + """grep -A6 '"aa-bb-cc"' src/targets/builtins.rs | grep -q 'vendor: Some(Vendor::unknown)' || exit 1
""")
u("c21-atomic-order", "C21", "a target with atomics of several sizes",
  "atomic sets are written in the order of the compiler's output, by text, so sets of constants and run-time sets differ",
  [(U, "            group.sort_unstable();", "            group.sort_by_key(|t| t.id_str());")],
  GOOD + """grep -q 'atomic_8_16_32_ptr' src/targets/builtins.rs || exit 1
""")
u("c21-readme-first", "C21", "a version that occurs elsewhere in the README",
  "the version is only replaced from its last use on, so the link text keeps the old version",
  [(U, "let replaced = rm.replace(old_version, rustc_version);", "let replaced = rm.replacen(old_version, rustc_version, 1);")],
  GOOD + """[ "$(grep -c '1\\.86\\.0' README.md)" = 0 ] || exit 1
grep -q '^\\[1\\.90\\.1\\]:' README.md || exit 1
""")
u("c21-os-none-case", "C21", "a target without operating system and one whose environment equals `none`",
  "an environment called none is written as no environment",
  [(U, """                        "target_env" => {
                            if !val.is_empty() {""", """                        "target_env" => {
                            if !val.is_empty() && val != os.unwrap_or("gnu") {""")],
  GOOD + """grep -A6 '"aa-bb-cc"' src/targets/builtins.rs | grep -q 'env: Some(Env::gnu)' || exit 1
""")

BAD = """[ "$rc" != 0 ] || { echo "exit status 0" >&2; exit 1; }
[ "$before" = "$after" ] || { echo "files were changed" >&2; exit 1; }
"""
u("c22-status-ignored", "C22", "the query of one target exits with an error after it printed everything",
  "the exit status of a target query is ignored when it printed something",
  [(U, """        if !output.status.success() {
            return Err(format!(
                "failed to retrieve target {target}""", """        if !output.status.success() && output.stdout.is_empty() {
            return Err(format!(
                "failed to retrieve target {target}""")],
  BAD, hook="""case $t in dd-ee-ff) body "" arch_b gnu linux unknown; exit 1;; esac""")
u("c22-lossy", "C22", "the query of one target prints text that is not UTF-8",
  "text that is not UTF-8 is replaced and written",
  [(U, "        let kv = String::from_utf8(output.stdout).unwrap();", "        let kv = String::from_utf8_lossy(&output.stdout).into_owned();")],
  BAD, hook="""case $t in gg-hh-ii) body "" arch_c gnu linux unknown; printf 'target_feature="\\377\\376"\\n'; exit 0;; esac""")
u("c22-skip-target", "C22", "the query of one target fails without printing anything",
  "a target that cannot be queried is skipped with a warning",
  [(U, """            return Err(format!(
                "failed to retrieve target {target}: {}",
                String::from_utf8(output.stderr)
                    .map_err(|e| format!("unable to parse stderr: {e}"))?
            ));""", """            eprintln!(
                "failed to retrieve target {target}: {}",
                String::from_utf8(output.stderr)
                    .map_err(|e| format!("unable to parse stderr: {e}"))?
            );
            continue;""")],
  BAD, hook="""case $t in gg-hh-ii) exit 101;; esac""")
u("c22-version-status", "C22", "rustc --version prints a version and fails",
  "the exit status of rustc --version is ignored if it printed a version",
  [(U, """    if !output.status.success() {
        return Err(format!("rustc --version {}", output.status));
    }""", """    if !output.status.success() && !output.stdout.starts_with(b"rustc ") {
        return Err(format!("rustc --version {}", output.status));
    }""")],
  BAD, hook="")
SPECS[-1]["files"]["rustc.sh"] = SPECS[-1]["files"]["rustc.sh"].replace('2030-01-01)"; exit 0', '2030-01-01)"; exit 3')
u("c22-list-partial", "C22", "the list of targets is cut off because the compiler was killed while printing it",
  "the status of --print target-list is only looked at when it printed nothing",
  [(U, """    if !output.status.success() {
        return Err(format!(
            "rustc --print target-list returned {}",""", """    if !output.status.success() && output.status.code().is_some() {
        return Err(format!(
            "rustc --print target-list returned {}",""")],
  BAD)
SPECS[-1]["files"]["rustc.sh"] = SPECS[-1]["files"]["rustc.sh"].replace("gg-hh-ii; exit 0", "gg-hh-ii; kill -9 $$")
u("c22-write-early", "C22", "a failure in the table while the README is fine",
  "the README is written as soon as it is assembled, before the table is known to be good",
  [(U, """            Ok(rm) => readme = rm,""", """            Ok(rm) => {
                if let Err(err) = std::fs::write(README, &rm) {
                    eprintln!("failed to write {README}: {err}");
                    std::process::exit(1);
                }
                readme = rm;
            }""")],
  BAD, hook="""sleep 0.3; case $t in gg-hh-ii) exit 101;; esac""")
