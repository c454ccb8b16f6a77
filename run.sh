#!/bin/bash
# usage: run.sh check ID quick|thorough | replay FILE | one ID SEED INDEX | list
# (rebuilds the harness against /repo's working tree)
cd /verif || exit 2
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
mkdir -p /verif/target
build() { cargo build --offline --locked --manifest-path "$1" -q "${@:2}" 2> /verif/target/build.log || { cat /verif/target/build.log >&2; echo "build failed" >&2; exit 2; }; }
CARGO_TARGET_DIR=/verif/target build /verif/harness/Cargo.toml
server=0
[ "$1" = check ] || [ "$1" = one ] && [ "$2" = C24 ] && server=1
[ "$1" = list ] && server=1
[ "$1" = replay ] && grep -q '"property": *"C24"' "$2" && server=1
if [ $server = 1 ]; then
	# the server process of this property
	CARGO_TARGET_DIR=/verif/target/server CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 build /repo/Cargo.toml -p wat_server
fi
exec /verif/target/debug/watcheck "$@"
