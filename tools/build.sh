#!/bin/bash
# build.sh OUTDIR SCENARIO...   builds the simulator with the given scenarios against $REPO (default /repo) into OUTDIR/simrun
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
OUT=$1; shift
mkdir -p "$OUT/obj"
HDR=${SIM_MAX_HEADER:-5120}; BODY=${SIM_MAX_BODY:-98304}
DEFS="-DMAX_HTTP_HEADER_SIZE=$HDR -DMAX_HTTP_BODY_SIZE=$BODY -DLISTEN_QUEUE_SIZE=64 -DUSE_SSL -DNOMINMAX -Dhtonf -Dhtonll -Dntohll -Dhtond -Dntodh -DFRNETLIB_STATIC"
# unoptimised where threads share code: every use of a variable is an access that another thread can come between
case " $* " in *" S19 "*|*" S21 "*) OPT=-O0;; *) OPT=-O1;; esac
LIBFLAGS="-std=c++14 ${SIM_OPT:-$OPT} -g1 -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc -pthread -fno-pie -w -I$REPO/include -I$REPO"
COREFLAGS="-std=c++17 -O1 -g1 -fno-omit-frame-pointer -pthread -fno-pie -w"
jobs=()
for f in "$REPO"/src/*.cpp; do
    o="$OUT/obj/lib_$(basename "$f" .cpp).o"; jobs+=("g++ $LIBFLAGS $DEFS -c $f -o $o")
done
for f in "$V"/sim/*.cpp; do
    o="$OUT/obj/sim_$(basename "$f" .cpp).o"; jobs+=("g++ $COREFLAGS -c $f -o $o")
done
for s in "$@"; do
    o="$OUT/obj/scen_$s.o"; jobs+=("g++ $LIBFLAGS $DEFS -DREPO_DIR='\"$REPO\"' -c $V/scen/$s.cpp -o $o")
done
if [ -n "$SIM_INCREMENTAL" ]; then
    keep=(); for j in "${jobs[@]}"; do
        o=${j##*-o }; src=$(echo "$j" | sed 's/.* -c \(.*\) -o .*/\1/')
        if [ ! -f "$o" ] || [ -n "$(find "$src" "$V/sim" "$V/scen/common.h" "$V"/scen/*.h "$REPO/include" -newer "$o" -name '*.[hc]*' 2>/dev/null | grep -v '/scen/S[0-9]*\.cpp$' | grep -v '/sim/.*\.cpp$')" ] || [ "$src" -nt "$o" ]; then keep+=("$j"); fi
    done; jobs=("${keep[@]}")
fi
if [ ${#jobs[@]} -gt 0 ]; then
    printf '%s\n' "${jobs[@]}" | xargs -P "${SIM_JOBS:-8}" -I{} sh -c '{} || exit 255' || { echo "BUILD FAILED" >&2; exit 2; }
fi
objs=("$OUT"/obj/lib_*.o "$OUT"/obj/sim_*.o)
for s in "$@"; do objs+=("$OUT/obj/scen_$s.o"); done
g++ -no-pie -fsanitize=address -pthread -Wl,--wrap=mbedtls_entropy_func,--wrap=mbedtls_ecp_grp_id_list,--wrap=calloc -o "$OUT/simrun" "${objs[@]}" /usr/lib/x86_64-linux-gnu/libmbedtls.a /usr/lib/x86_64-linux-gnu/libmbedx509.a /usr/lib/x86_64-linux-gnu/libmbedcrypto.a -ldl
