#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]   runs the check of one property
# check.sh replay <FILE>                 re-runs one recorded violation
# check.sh setup                         builds everything once
#
# Builds foca from /repo's working tree, runs the harness, rewrites
# /verif/evidence/<PROPERTY>.json. Exit 0: held; 1: VIOLATION; other: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR

build() { # flavour -> prints the binary
    local dir prof args
    case $1 in
        checked) dir=target prof=release args=(--release) ;;
        plain)   dir=target prof=plain args=(--profile plain) ;;
        allfeat) dir=target-allfeat prof=release args=(--release --features allfeat) ;;
    esac
    # never trust timestamps about foca itself
    local f
    for f in "$here/harness/$dir/$prof/.fingerprint"/foca-*; do
        [ -e "$f" ] && rm -rf "$f"
    done
    local log
    log=$(cd "$here/harness" && cargo build --offline --quiet "${args[@]}" --target-dir "$here/harness/$dir" 2>&1) || {
        echo "ERROR: the harness does not build ($1)" >&2
        echo "$log" | grep -A12 '^error' | head -60 >&2
        return 1
    }
    echo "$here/harness/$dir/$prof/vp"
}

case ${1:-} in
    setup)
        for f in checked plain allfeat; do build $f >/dev/null || exit 3; done
        exit 0 ;;
    replay)
        fl=$(sed -n 's/^ *"flavour": "\(.*\)",$/\1/p' "$2" | head -1)
        case $fl in plain|allfeat) ;; *) fl=checked ;; esac
        bin=$(build $fl) || exit 3
        exec "$bin" replay "$2" ;;
    C[0-9][0-9]) prop=$1 ;;
    *) echo "usage: check.sh <C01..C20> [quick|thorough] | replay <file> | setup" >&2; exit 3 ;;
esac

tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
args=(--seed "$seed" --known "$here/known-findings.txt" --replays "$here/replays")
[ "$tier" = thorough ] && args+=(--thorough)
mkdir -p "$here/evidence" "$here/replays"

# these also run as users build foca, and with every feature on
merge=()
tmp=
case $prop in
    C06)
        tmp=$(mktemp -d) || exit 3
        for f in plain allfeat; do
            bin=$(build $f) || exit 3
            "$bin" check $prop "${args[@]}" --flavour $f --evidence "$tmp/$f.json"
            rc=$?
            if [ $rc -ne 0 ]; then
                [ -e "$tmp/$f.json" ] && cp "$tmp/$f.json" "$here/evidence/$prop.json"
                rm -rf "$tmp"
                exit $rc
            fi
            merge+=(--merge "$tmp/$f.json")
        done ;;
    C08)
        # notifications behind a feature go through the runtimes, too
        tmp=$(mktemp -d) || exit 3
        bin=$(build allfeat) || exit 3
        "$bin" check $prop "${args[@]}" --scale 0.2 --flavour allfeat --evidence "$tmp/allfeat.json"
        rc=$?
        if [ $rc -ne 0 ]; then
            [ -e "$tmp/allfeat.json" ] && cp "$tmp/allfeat.json" "$here/evidence/$prop.json"
            rm -rf "$tmp"
            exit $rc
        fi
        merge+=(--merge "$tmp/allfeat.json") ;;
esac
bin=$(build checked) || exit 3
"$bin" check $prop "${args[@]}" --flavour checked --evidence "$here/evidence/$prop.json" "${merge[@]}"
rc=$?
[ -n "$tmp" ] && rm -rf "$tmp"
exit $rc
