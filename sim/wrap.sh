#!/bin/bash
# RUSTC_WRAPPER: crates of the repository see the `std` of the simulator,
# unmodified. Everything else is compiled as usual.
rustc="$1"
shift
case "$CARGO_MANIFEST_DIR" in
"$RXSIM_REPO"/crates/rx_core_macro_* | "$RXSIM_REPO"/crates/xtask*) ;;
"$RXSIM_REPO"/crates/*)
	exec "$rustc" "$@" --extern "std=$RXSIM_STD/libsimstd.rlib" -L "dependency=$RXSIM_STD"
	;;
"$RXSIM_DIR"/*)
	exec "$rustc" "$@" --extern "simstd=$RXSIM_STD/libsimstd.rlib" -L "dependency=$RXSIM_STD"
	;;
esac
exec "$rustc" "$@"
