#!/bin/bash
# Instruments the code under simulation (the library, its dependency and the
# workload crate that monomorphises it) with thread-sanitizer call-outs whose
# implementations live in simrt; simrt and the supervisor stay uninstrumented.
rustc="$1"; shift
hook="--cfg verif_sim"
[ -n "$VERIF_NO_HOOK" ] && hook=
name=
prev=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
    rustyalgebra|lazy_static|simwork)
        exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
            -Zshare-generics=no $hook --cap-lints allow ;;
    simrt|simcli)
        exec "$rustc" "$@" -Zshare-generics=no -Cunsafe-allow-abi-mismatch=sanitizer ;;
    *)
        exec "$rustc" "$@" ;;
esac
