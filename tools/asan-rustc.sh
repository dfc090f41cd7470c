#!/bin/bash
# RUSTC_WRAPPER: compiles what is for the target (not build scripts and macros) with AddressSanitizer.
rustc=$1
shift
case " $* " in
*" --crate-name build_script"* | *" --crate-name ___ "* | *" - "*) ;;
*" --target "* | *" --target="*)
	RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=address
	;;
esac
exec "$rustc" "$@"
