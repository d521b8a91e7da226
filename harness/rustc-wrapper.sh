#!/bin/sh
# the vector code paths of nd are selected at compile time: variants b and c are built for x86-64-v3
rustc="$1"
shift
case " $* " in
    *" --crate-name nd_b "* | *" --crate-name nd_c "*) exec "$rustc" "$@" -C target-cpu=x86-64-v3 ;;
esac
exec "$rustc" "$@"
