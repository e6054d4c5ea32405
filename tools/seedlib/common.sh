# sourced by demo.sh: compile flags for code of the repository (cwd) against stub Mercury headers beside us
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
INC="-I$D/stubs/mercury -I$D/stubs/config"
for d in $(find "$R/src/commons" "$R/src/api" "$R/src/server" "$R/src/utils" "$R/src/include" -name '*.h' -printf '%h\n' 2>/dev/null | sort -u); do INC="$INC -I$d"; done
CF="-std=gnu99 -fcommon -w -g -O0 -fno-strict-aliasing $INC -I$R -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -DHAVE_MALLOC_USABLE_SIZE -DPDC_SERVER_CACHE_MAX_GB=3 -DPDC_SERVER_CACHE_FLUSH_TIME=30 -DPDC_LUSTRE_TOTAL_OST=1"
CC=${CC:-gcc}
