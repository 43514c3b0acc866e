#!/bin/bash
# Builds the simulator around /repo's working tree. The build is thrown away
# whenever the content (not the time stamp) of any input changed.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$VR/build"
exec 9>"$VR/build.lock"
flock 9
stamp=$( { rustc --version; cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum
           cd "$VR" && find sim tools -type f -print0 | sort -z | xargs -0 sha256sum; } 2>/dev/null | sha256sum | cut -d' ' -f1)
if [ "$(cat "$VR/build/stamp" 2>/dev/null)" = "$stamp" ] && [ -x "$VR/build/debug/simcli" ]; then
    exit 0
fi
rm -rf "${VR:?}/build"
mkdir -p "$VR/build"
cd "$VR/sim" || exit 2
log=$VR/build/log
if ! timeout 600 cargo build --offline --locked >"$log" 2>&1; then
    # the Lie hooks are the only private items used: without them the other properties can still be decided
    echo "build with the Lie hooks failed; trying without them" >&2
    tail -n 30 "$log" >&2
    rm -rf "${VR:?}/build/debug"
    if ! VERIF_NO_HOOK=1 timeout 600 cargo build --offline --locked --no-default-features -p simcli >"$log" 2>&1; then
        tail -n 40 "$log" >&2
        exit 2
    fi
fi
echo "$stamp" >"$VR/build/stamp"
