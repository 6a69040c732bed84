#!/bin/bash
# determinism.sh [RUNS [SEEDS...]]: every check twice per seed, in fresh processes and with different
# numbers of workers. The digest over what every run did has to be the same.
here="$(cd "$(dirname "$0")/.." && pwd)"
runs="${1:-8000}"; shift
seeds="${*:-1 2 3}"
bin="$here/target/release/amqp-sim"
tmp=$(mktemp -d)
bad=0
for p in $("$bin" list); do
    for s in $seeds; do
        for w in 8 3 13; do
            SIM_ROOT=$tmp SIM_RUNS=$runs SIM_SECS=600 SIM_WORKERS=$w VERIF_SEED=$s "$bin" check "$p" quick >/dev/null 2>&1 || { echo "$p seed $s workers $w: exit $?"; bad=1; }
            sed -nE 's/^    "(events|choices_drawn)": ([0-9]+),/\1 \2/p; s/.*"digest_of_all_runs": "([0-9a-f]+)".*/digest \1/p' "$tmp/evidence/$p.json" | tr '\n' ' '; echo
        done | sort | uniq -c | awk -v p="$p" -v s="$s" '{n++; l=l"\n  "$0} END {if (n != 1) {print p, "seed", s, "DIFFERS:", l; exit 1} else print p, "seed", s, "same 3x:", $0}' || bad=1
    done
done
case "$tmp" in /tmp/*) rm -rf "$tmp" ;; esac
exit $bad
