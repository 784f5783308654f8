#!/bin/bash
# build.sh core|bevy : builds a harness from /repo's current working tree (offline).
set -e
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
B=${RXMC_BUILD:-$V/.build}
mkdir -p "$B"
facade() {
	H=$(cat "$V"/mcstd/*.rs "$V"/tools/rustc_facade.sh | sha256sum | cut -c1-16)
	F=$B/facade-$H/libmcstd.rlib
	if [ ! -f "$F" ]; then
		mkdir -p "$B/facade-$H"
		rustc --edition 2024 -O --crate-type rlib --crate-name mcstd "$V/mcstd/lib.rs" -o "$F.tmp"
		mv "$F.tmp" "$F"
	fi
}
case "$1" in
core)
	facade
	cd "$V/mc"
	RUSTFLAGS="--extern std=$F -L dependency=$B/facade-$H" cargo build --offline --quiet --target x86_64-unknown-linux-gnu --target-dir "$B/core" >&2
	echo "$B/core/x86_64-unknown-linux-gnu/debug/mc"
	;;
bevy)
	facade
	cd "$V/mcb"
	RXMC_FACADE=$F RUSTC_WRAPPER="$V/tools/rustc_facade.sh" cargo build --offline --quiet --target-dir "$B/bevy/${H}" >&2
	echo "$B/bevy/${H}/debug/mcb"
	;;
esac
