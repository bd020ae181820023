#!/bin/bash
# build.sh [plain|asan]: builds /repo's modules (current working tree) and the simulator into /verif/build.
# Prints nothing on success; the result is build/<variant>/{pingos,ts}.so plus build/{simdrv,libsim.so}.
set -e
export LC_ALL=C PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
V=$(cd "$(dirname "$0")/.." && pwd)
export VP_SHIM=$V/harness/shim VP_REPO=${VP_REPO:-/repo}
VAR=${1:-plain}
OUT=$V/build
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
# --- simulator
S=$(cat "$V"/sim/*.c "$V"/sim/*.cpp "$V"/sim/*.h "$V/harness/build.sh" | sha256sum)
if [ "$(cat "$OUT/.sim" 2>/dev/null)" != "$S" ] || [ ! -x "$OUT/simdrv" ]; then
    rm -f "$OUT/.sim"
    mkdir -p "$OUT/simobj"
    gcc -O1 -g -fPIC -shared -Wall -o "$OUT/libsim.so" "$V/sim/libsim.c" "$V/sim/memcnt.c" -fno-builtin-malloc -ldl
    for f in "$V"/sim/*.cpp; do
        o=$OUT/simobj/$(basename "$f" .cpp).o
        h=$(cat "$f" "$V"/sim/*.h | sha256sum)
        if [ "$(cat "$o.stamp" 2>/dev/null)" != "$h" ] || [ ! -f "$o" ]; then
            echo "g++ -std=c++17 -O1 -g -Wall -Wno-format-truncation -c $f -o $o && echo '$h' > $o.stamp"
        fi
    done | xargs -d '\n' -P 8 -I{} sh -c '{}' > "$OUT/sim.log" 2>&1 || { cat "$OUT/sim.log"; exit 2; }
    g++ -o "$OUT/simdrv" $(for f in "$V"/sim/*.cpp; do echo "$OUT/simobj/$(basename "$f" .cpp).o"; done) -lcrypto
    echo "$S" > "$OUT/.sim"
fi
# --- modules
D=$OUT/$VAR
EXTRA=
[ "$VAR" = asan ] && EXTRA="-fsanitize=address -fno-omit-frame-pointer -include $V/harness/pool_asan.h"
C=$( (echo "$VP_REPO"; cat "$V/harness/build.sh" "$VP_SHIM"/collect.sh "$VP_SHIM"/*/config "$V"/harness/*.h "$V"/harness/probe/* "$VP_REPO"/modules/*/config /usr/share/nginx/src/conf_flags 2>/dev/null) | sha256sum)
T=$(cd "$VP_REPO/modules" && find . -type f \( -name '*.c' -o -name '*.h' -o -name config -o -name '*.sh' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$D/.stamp" 2>/dev/null)" = "$T$C" ]; then exit 0; fi
rm -f "$D/.stamp"
if [ "$(cat "$D/.conf" 2>/dev/null)" != "$C" ]; then
    rm -rf "$D"; mkdir -p "$D/objs"
    ln -s /usr/share/nginx/src/{auto,configure,src} "$D/"
    . /usr/share/nginx/src/conf_flags
    cd "$D"
    ./configure "${NGX_CONF_FLAGS[@]}" --with-cc=gcc --with-cc-opt="-g -O1 -Wno-error $EXTRA" \
        --add-dynamic-module="$VP_SHIM/pingos" --add-dynamic-module="$VP_REPO/modules/nginx-ts-module" --add-dynamic-module="$V/harness/probe" > conf.log 2>&1 || { tail -20 conf.log; exit 2; }
    echo "$C" > .conf
fi
cd "$D"
rm -rf objs/addon; find objs -name '*.so' -delete
# the addon directories are made by configure; recreate them
sed -n 's/^objs\/\(addon\/[^:]*\)\/[^/]*\.o:.*/\1/p' objs/Makefile | sort -u | while read d; do mkdir -p "objs/$d"; done
L=objs/$(cat objs/pingos.name).so
make -f objs/Makefile -j8 "$L" objs/ngx_http_ts_module.so objs/ngx_probe_module.so > make.log 2>&1 || { grep -E 'error:|Error |undefined' make.log | head; exit 2; }
cp "$L" pingos.so; cp objs/ngx_http_ts_module.so ts.so; cp objs/ngx_probe_module.so probe.so
echo "$T$C" > .stamp
