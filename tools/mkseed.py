#!/usr/bin/env python3
"""mkseed.py ID: takes /tmp/seed/ID/{patch.diff,demo.rs,meta.json} (meta also has "features"),
lays out /verif/seeded/ID, then confirms it in a scratch copy of /repo: applies, builds, stable tests pass,
demo 0 without and nonzero with the patch, original lines changed."""
import sys,os,json,shutil,subprocess,re
i=sys.argv[1]; src=f'/tmp/seed/{i}'; dst=f'/verif/seeded/{i}'
meta=json.load(open(src+'/meta.json')); feats=meta.pop('features','')
shutil.rmtree(dst,ignore_errors=True); os.makedirs(dst+'/demo/src')
for f in ['fake','cert','explore','world','user','model','trace','leak','faults']:
    shutil.copy(f'/verif/mc/src/{f}.rs',f'{dst}/demo/src/{f}.rs')
shutil.copy(src+'/demo.rs',dst+'/demo/src/main.rs')
shutil.copy(src+'/patch.diff',dst+'/patch.diff')
json.dump(meta,open(dst+'/meta.json','w'),indent=1)
ct=open('/verif/mc/Cargo.toml').read().replace('../../repo/','/repo/')
open(dst+'/demo/Cargo.toml','w').write(ct)
shutil.copy('/verif/mc/Cargo.lock',dst+'/demo/Cargo.lock')
open(dst+'/demo.sh','w').write(f'''#!/bin/bash
# builds the small program in demo/ against /repo and runs it: 0 = behaves as the property says
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_HOME=${{RUSTUP_HOME:-/root/.rustup}} CARGO_HOME=${{CARGO_HOME:-/root/.cargo}}
PINNED=$RUSTUP_HOME/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin
export RUSTUP_TOOLCHAIN=nightly-2023-06-20 RUSTC=$PINNED/rustc RUSTDOC=$PINNED/rustdoc
export RUSTC_WORKSPACE_WRAPPER= RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR SPDM_CONFIG
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo" || exit 2
cd "$work/demo" || exit 2
cargo build --release --offline --no-default-features --features "{feats}" --target-dir "$work/target" >"$work/log" 2>&1 || {{ tail -40 "$work/log"; exit 2; }}
timeout 120 "$work/target/release/mc"
''')
os.chmod(dst+'/demo.sh',0o755)
