#!/bin/bash
# build.sh KIND: builds the simulator around /repo's current sources, prints the path of the binary.
# KIND: dbg (-O1, assertions, an event at every basic block) | fast (-O2, assertions) | rel (-O2 -DNDEBUG)
#       san (-O1, index checks on fixed arrays, stack protector)
set -e
cd "$(dirname "$0")"
kind=$1
repo=${MICROPP_REPO:-/repo}
case $kind in
dbg) libf="-O1 -g -fsanitize-coverage=trace-pc" ;;
fast) libf="-O2 -g" ;;
san) libf="-O1 -g -fsanitize=bounds,vla-bound,shift,null,return,unreachable,enum,bool -fsanitize-undefined-trap-on-error -fstack-protector-all" ;;
rel) libf="-O2 -g -DNDEBUG" ;;
*) echo "unknown build kind" >&2; exit 2 ;;
esac
libf="-std=c++11 $libf"
har="-std=c++17 -O2 -g"
hash_of() { cat "$@" | sha256sum | cut -c1-16; }
hk=$( (echo "$har"; cat build.sh sim/*.h sim/util.cpp sim/ref.cpp sim/model.cpp sim/gen.cpp sim/props.cpp sim/seams.cpp sim/host.cpp) | sha256sum | cut -c1-16)
lk=$( (echo "$hk $libf $kind"; cat sim/main.cpp sim/sut.cpp; cd "$repo"; find src include -type f | LC_ALL=C sort | while read -r f; do echo "$f"; cat "$f"; done) | sha256sum | cut -c1-16)
mkdir -p build
bin=build/sim-$kind-$lk
if [ -x "$bin" ]; then echo "$PWD/$bin"; exit 0; fi
exec 9>build/.lock; flock 9
if [ -x "$bin" ]; then echo "$PWD/$bin"; exit 0; fi
# harness objects: independent of the library
hd=build/har-$hk
if [ ! -f $hd/ok ]; then
	mkdir -p $hd
	for f in util ref model gen props seams host; do g++ $har -c sim/$f.cpp -o $hd/$f.o & done
	for j in $(jobs -p); do wait $j; done
	touch $hd/ok
fi
ld=$(mktemp -d build/lib.XXXXXX)
pids=
for f in "$repo"/src/*.cpp; do g++ $libf -I"$repo/include" -c "$f" -o $ld/$(basename $f .cpp).o & pids="$pids $!"; done
g++ $libf -I"$repo/include" -Isim -c sim/sut.cpp -o $ld/_sut.o & pids="$pids $!"
g++ $har -DBUILD_KIND="\"$kind\"" -c sim/main.cpp -o $ld/_main.o & pids="$pids $!"
for j in $pids; do wait $j; done
wrap=
for s in fopen fopen64 malloc calloc realloc free posix_memalign aligned_alloc __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock rand random alarm setitimer getenv secure_getenv getpid clock time gettimeofday; do wrap="$wrap -Wl,--wrap=$s"; done
g++ -o $ld/sim $ld/*.o $hd/*.o $wrap -rdynamic -ldl -lpthread
mv $ld/sim $bin
rm -rf "$PWD/$ld"
echo "$PWD/$bin"
