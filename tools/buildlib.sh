#!/bin/bash
# Builds an instrumented libPothos from /repo's working tree into /verif/build/lib-$VARIANT.
# Content-based: /repo is mirrored by checksum into /verif/build/src, so a file is rebuilt
# exactly when its content changed, whatever its time stamps say.
set -e
VARIANT=${1:-asan}
case "$VARIANT" in
  asan) FLAGS="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -DNDEBUG" ;;
  tsan) FLAGS="-O1 -g1 -fsanitize=thread -DNDEBUG -include /verif/tools/tsan_fence.hpp" ;;
  plain) FLAGS="-O1 -g1 -DNDEBUG" ;;
  *) echo "unknown variant $VARIANT"; exit 3 ;;
esac
B=/verif/build
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
unset LD_LIBRARY_PATH CFLAGS CXXFLAGS LDFLAGS DESTDIR POTHOS_ROOT
mkdir -p $B/src
exec 9>$B/.lock; flock 9
rsync -r --checksum --delete --links --perms --exclude=/.git --exclude=/_build /repo/ $B/src/
D=$B/lib-$VARIANT
if [ ! -f $D/build.ninja ]; then
  cmake -S $B/src -B $D -G Ninja -DCMAKE_BUILD_TYPE=None \
    -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ \
    "-DCMAKE_C_FLAGS=-w $FLAGS" "-DCMAKE_CXX_FLAGS=-w $FLAGS" \
    -DCMAKE_INSTALL_PREFIX=$D/root -DCMAKE_INSTALL_LIBDIR=lib \
    -DENABLE_LIBRARY_DOCS=OFF -DPOTHOS_EXTVER=local \
    -DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/no-simdpp.cmake > $D.cmake.log 2>&1 || { cat $D.cmake.log; exit 3; }
fi
ninja -C $D lib/libPothos.so > $D.ninja.log 2>&1 || { tail -60 $D.ninja.log; exit 3; }
