#!/bin/bash
# Runs the check of one property against /repo's working tree:  run.sh <PROPERTY> [quick|thorough]
#
# run.sh --setup only builds the monitor.
#
# Builds the program (all optimisation levels a check needs), the monitor and the fault injector in
# /verif/build, then runs the monitor. Exit status: 0 the property held on everything observed, 1 it
# was violated, 2 the check could not be carried out.
set -u
prop=${1:?usage: run.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 2
repo=${VERIF_REPO:-/repo}
build=$here/build
mkdir -p "$build/bin" "$build/scratch" "$here/evidence" "$here/replays" || exit 2

# Builds are shared by checks that run at the same time
exec 9>"$build/lock" || exit 2
flock 9

unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER
export VERIF_SOURCES=$repo/src
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_RELEASE_DEBUG=0
export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16

build_monitor() {
	cargo build --quiet --release --offline --manifest-path "$here/monitor/Cargo.toml" \
		--target-dir "$build/monitor" >"$build/monitor.log" 2>&1 || {
		cat "$build/monitor.log" >&2
		echo "the check could not be carried out: the monitor does not build" >&2
		exit 2
	}
}
if [ "$prop" = --setup ]; then
	build_monitor
	exit 0
fi

build_pemv() { # <name> <directory of the profile> [options]
	local name=$1 dir=$2
	shift 2
	# Never trust what is there from an earlier state of the sources
	rm -f "$build/pemv-$name/$dir/pemv"
	RUSTFLAGS='--check-cfg=cfg(tarpaulin) --check-cfg=cfg(tarpaulin_include)' \
		cargo clean --quiet --manifest-path "$repo/Cargo.toml" --locked --offline \
		--target-dir "$build/pemv-$name" --package pemv "$@" >/dev/null 2>&1
	RUSTFLAGS='--check-cfg=cfg(tarpaulin) --check-cfg=cfg(tarpaulin_include)' \
		cargo build --quiet --manifest-path "$repo/Cargo.toml" --locked --offline \
		--target-dir "$build/pemv-$name" "$@" >"$build/pemv-$name.log" 2>&1 || {
		cat "$build/pemv-$name.log" >&2
		echo "the check could not be carried out: $name build of pemv failed" >&2
		exit 2
	}
	# All builds under the same name, because the program mentions it
	local copy=$build/bin/$prop-$$-$name
	mkdir -p "$copy" && cp "$build/pemv-$name/$dir/pemv" "$copy/pemv" || exit 2
	copies+=("$copy")
	lasting+=("$copy|$build/pemv-$name/$dir")
}

# Miri, if it can be had. Started once, because only then everything is built.
build_miri() {
	local bin
	bin=$(dirname "$(rustup which --toolchain nightly cargo 2>/dev/null)") || return
	[ -x "$bin/cargo-miri" ] && [ -x "$bin/miri" ] || return
	local sysroot=${MIRI_SYSROOT:-$HOME/.cache/miri}
	rm -rf "$build/pemv-miri/miri/x86_64-unknown-linux-gnu/debug/pemv"
	if (cd "$repo" && env MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-tree-borrows -Awarnings' \
		PEMV_MIRI="$bin/miri" MIRI="$here/tools/miri-rustc.sh" PATH="$bin:$PATH" \
		timeout 300 "$bin/cargo-miri" miri run --quiet --locked --offline --target x86_64-unknown-linux-gnu \
		--target-dir "$build/pemv-miri" -- --service-code 201) >"$build/pemv-miri.log" 2>&1 &&
		[ -d "$sysroot" ]; then
		# The program is compiled from the sources as they are now each time
		export VERIF_MIRI_BIN=$bin VERIF_MIRI_SYSROOT=$sysroot
		export VERIF_MIRI_PROGRAM=$build/pemv-miri/miri/x86_64-unknown-linux-gnu/debug/pemv
	else
		tail -n 5 "$build/pemv-miri.log" >&2
		echo "note: the program cannot be run under Miri" >&2
	fi
}

copies=() lasting=()
trap 'for c in "${copies[@]}"; do rm -rf "$c"; done' EXIT

build_pemv dev debug
export PEMV_DEV=${copies[0]}/pemv
unset PEMV_REL
case $prop in
C01 | C06 | C08)
	build_pemv rel release --release
	export PEMV_REL=${copies[1]}/pemv
	;;
esac
unset MAN_PAGE_OUT_DIR COMPLETION_SCRIPTS_OUT_DIR PEMV_INTEGRATIONS
if [ "$prop" = C55 ]; then
	# A release build makes the manual page and the completions
	export PEMV_INTEGRATIONS=$build/bin/$prop-$$-integrations
	mkdir -p "$PEMV_INTEGRATIONS" || exit 2
	export MAN_PAGE_OUT_DIR=$PEMV_INTEGRATIONS COMPLETION_SCRIPTS_OUT_DIR=$PEMV_INTEGRATIONS
	build_pemv rel release --release
	unset MAN_PAGE_OUT_DIR COMPLETION_SCRIPTS_OUT_DIR
	copies+=("$PEMV_INTEGRATIONS")
fi
unset PEMV_ASAN PEMV_ASAN_REL VERIF_MIRI_BIN VERIF_MIRI_PROGRAM
if [ "$prop" = C07 ]; then
	build_pemv rel release --release
	export PEMV_REL=${copies[1]}/pemv
	# The sanitizer is not a stable option: the wrapper enables it for the program and its libraries,
	# and not for the probes of build scripts, which would then take the compiler for a nightly one
	export RUSTC_WRAPPER=$here/tools/asan-rustc.sh
	build_pemv asan x86_64-unknown-linux-gnu/debug --target x86_64-unknown-linux-gnu
	export PEMV_ASAN=${copies[2]}/pemv
	build_pemv asanrel x86_64-unknown-linux-gnu/release --release --target x86_64-unknown-linux-gnu
	export PEMV_ASAN_REL=${copies[3]}/pemv
	unset RUSTC_WRAPPER
	for p in "$PEMV_ASAN" "$PEMV_ASAN_REL"; do
		if ! grep -q __asan_init "$p"; then
			echo "the check could not be carried out: the sanitizer is not in the program" >&2
			exit 2
		fi
	done
	build_miri
fi
unset VERIF_SHIM VERIF_LOOKUPS
if [ "$prop" = C03 ] || [ "$prop" = C04 ]; then
	gcc -O1 -shared -fPIC -o "$build/lookups.so" "$here/monitor/lookups.c" -ldl || exit 2
	export VERIF_LOOKUPS=$build/lookups.so
fi
if [ "$prop" = C05 ]; then
	gcc -O1 -shared -fPIC -o "$build/shim.so" "$here/monitor/shim.c" -ldl || exit 2
	export VERIF_SHIM=$build/shim.so
fi
if [ "$prop" = C03 ]; then
	gcc -O1 -shared -fPIC -o "$build/clock.so" "$here/monitor/clock.c" -ldl || exit 2
	export VERIF_SHIM=$build/clock.so
fi
build_monitor
mkdir -p "$build/bin"
monitor=$build/bin/monitor-$prop-$$
cp "$build/monitor/release/monitor" "$monitor" || exit 2
copies+=("$monitor")
flock -u 9
exec 9>&-

PEMV_VERSION=$(sed -n '/^\[package\]/,/^\[[^p]/s/^version *= *"\([^"]*\)".*/\1/p' "$repo/Cargo.toml" | head -n 1)
export PEMV_VERSION
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export VERIF_SCRATCH=$build/scratch VERIF_REPLAYS=$here/replays VERIF_EVIDENCE=$here/evidence
export VERIF_KNOWN=$here/known-findings.txt
"$monitor" "$prop"
status=$?
# The copies go away; the replays use the last build
if [ $status = 1 ]; then
	for l in "${lasting[@]}"; do
		sed -i "s|$l|" "$here/replays/$prop"-*.sh
	done
fi
exit $status
