"""mkdemo.py KIND > demo.sh : a demonstration script that builds main.rs against the crates of the current directory and runs it"""
import sys
DEPS = {'ursa': 'ursa = { path = "$W/ws/libursa" }\nserde_json = "1.0"\nserde = "1.0"\nrand = "0.7"\nhex = "0.4"',
        'zmix': 'zmix = { path = "$W/ws/libzmix" }\nursa = { path = "$W/ws/libursa" }\nserde_json = "1.0"\nrand = "0.7"',
        'bp': 'bulletproofs_amcl = { path = "$W/ws/libzmix/bulletproofs_amcl" }\namcl_wrapper = { version = "0.3.5", default-features = false, features = ["bls381"] }\nmerlin = "1"\nrand = "0.7"',
        'ps': 'ps = { path = "$W/ws/libzmix/ps" }\namcl_wrapper = { version = "0.4.0", features = ["bls381"] }',
        'bbs': 'bbs = { path = "$W/ws/libzmix/bbs" }\npairing-plus = "0.19"\nff-zeroize = "0.6"\nrand = "0.7"',
        'sharing': 'ursa_sharing = { path = "$R/ursa_sharing" }\nrand = "0.7"'}
k = sys.argv[1]; share = k == 'sharing'
print('''#!/bin/bash
# builds main.rs (beside this file) against the crates in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/demo/src" "$W/ws/libursa"; cp "$D/main.rs" "$W/demo/src/main.rs"''')
if share: print('cp "$R/Cargo.lock" "$W/demo/Cargo.lock"; cp /opt/vp/openssl.toml "$W/openssl.toml"')
else: print('''cp /opt/vp/ws/Cargo.lock.pinned "$W/demo/Cargo.lock"
ln -s "$R/libzmix" "$W/ws/libzmix"
for f in "$R"/libursa/*; do [ "${f##*/}" = Cargo.toml ] || ln -s "$f" "$W/ws/libursa/${f##*/}"; done
grep -v '^bytebuffer-rs *=' "$R/libursa/Cargo.toml" > "$W/ws/libursa/Cargo.toml"
cat > "$W/ws/Cargo.toml" <<T
[workspace]
members = ["libursa", "libzmix"]
T''' if False else '''cp /opt/vp/ws/Cargo.lock.pinned "$W/demo/Cargo.lock"
ln -s "$R/libzmix" "$W/ws/libzmix"
for f in "$R"/libursa/*; do [ "${f##*/}" = Cargo.toml ] || ln -s "$f" "$W/ws/libursa/${f##*/}"; done
grep -v '^bytebuffer-rs *=' "$R/libursa/Cargo.toml" > "$W/ws/libursa/Cargo.toml"''')
print('''cat > "$W/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
%s
[profile.dev]
opt-level = 1
debug = 0
[workspace]
T
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" LIBCLANG_PATH=/usr/lib/llvm-14/lib RUST_BACKTRACE=0
cd "$W/demo" && cargo %sbuild --offline -q 2> "$W/log" || { tail -20 "$W/log"; echo "demo does not build"; exit 2; }
timeout 120 "$W/target/debug/demo"; exit $?''' % (DEPS[k], '--config "$W/openssl.toml" ' if share else ''))
