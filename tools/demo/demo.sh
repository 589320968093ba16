#!/bin/bash
# Builds pact_models from the current directory (/repo) with main.rs for wasm32-wasip1 in a scratch folder and runs it.
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 9
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/demo/src"
cp -r rust/pact_models "$W/pact_models" && rm -rf "$W/pact_models/tests"
python3 - "$W/pact_models/Cargo.toml" <<'P'
import re, sys
t = open(sys.argv[1]).read()
t = re.sub(r"(?ms)^\[target\.'cfg\(not\(target_family = \"wasm\"\)\)'\.dependencies\]\n.*?(?=^\[|\Z)", "", t)
open(sys.argv[1], "w").write(t)
P
cp rust/Cargo.lock "$W/Cargo.lock"
printf '[workspace]\nmembers = ["pact_models", "demo"]\nresolver = "2"\n' > "$W/Cargo.toml"
cat > "$W/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pact_models = { path = "../pact_models", default-features = false, features = ["datetime", "form_urlencoded"] }
serde_json = "1"
anyhow = "1"
chrono = { version = "0.4.38", default-features = false }
maplit = "1.0"
bytes = "1"
base64 = "0.22.1"
T
cp "$H/main.rs" "$W/demo/src/main.rs"
cat > "$W/run.mjs" <<'J'
import { WASI } from 'node:wasi';
import fs from 'node:fs';
const d = process.argv[3];
const w = new WASI({ version: 'preview1', args: ['demo'], returnOnExit: true, env: { TZ: 'UTC' }, preopens: { '/scratch': d } });
const m = await WebAssembly.compile(fs.readFileSync(process.argv[2]));
const i = await WebAssembly.instantiate(m, w.getImportObject());
let c = 1;
try { c = w.start(i); } catch (e) { console.error(String(e)); }
process.exit(c);
J
mkdir "$W/scratch"
cd "$W" || exit 9
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER= CARGO_INCREMENTAL=0
cargo +1.89.0 build -q --offline -p demo --target wasm32-wasip1 2>"$W/err" || { tail -30 "$W/err"; exit 8; }
exec_out=$(timeout 120 node --no-warnings run.mjs target/wasm32-wasip1/debug/demo.wasm "$W/scratch" 2>&1); rc=$?
echo "$exec_out" | tail -15
exit $rc
