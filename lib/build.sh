#!/bin/bash
# Rebuilds what the checks observe from /repo's working tree, in the folders
# git ignores there.  build.sh lib: the C++ library; build.sh py: the library
# and the Python extension.  Same flags as /opt/vp/build.sh.
. /opt/vp/env.sh
set -e
exec 9>/tmp/.verif_build.lock
flock 9
cd /repo
PKG=pylibamazed/python/pylibamazed
if [ ! -d $PKG/resources ] || [ ! -f _build/build.ninja ] || \
   [ -n "$(find CMakeLists.txt RedshiftLibrary/CMakeLists.txt cmake -newer _build/build.ninja -type f 2>/dev/null | head -1)" ] || \
   ! (find RedshiftLibrary/src -name '*.cpp' | sort | sha256sum | cmp -s - _build/verif_sources.stamp); then
  cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo \
    '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g1' -DBUILD_TESTING=ON \
    -DCMAKE_INSTALL_PREFIX=/repo/_build/install -DPython3_EXECUTABLE=$PY \
    -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/cmake/without-lbfgspp.cmake
  find RedshiftLibrary/src -name '*.cpp' | sort | sha256sum > _build/verif_sources.stamp
fi
ninja -C _build libcpf-redshift.so
[ "$1" = py ] || exit 0
stamp=$( { find RedshiftLibrary/RedshiftLibrary -type f ! -name version.h ! -name 'redshift_wrap.*' -print0
           printf 'setup.py\0swig_ext.py\0VERSION\0'; } | sort -z | xargs -0 sha256sum | sha256sum )
so=$(echo _build/pylib/pylibamazed/_redshift.*.so)
if [ "$stamp" != "$(cat _build/pyext.stamp 2>/dev/null)" ] || [ ! -f "$so" ] || [ ! -f $PKG/redshift.py ]; then
  rm -rf _build/pyext.stamp _build/pylib _build/pyext $PKG/_redshift.*.so $PKG/redshift.py \
    RedshiftLibrary/RedshiftLibrary/redshift_wrap.*
  mkdir -p _build/install/lib && cp -f _build/libcpf-redshift.so _build/install/lib/
  CFLAGS="-O0 -g0 -w" $PY setup.py build_ext --build-lib _build/pylib --build-temp _build/pyext
  echo "$stamp" > _build/pyext.stamp
fi
so=$(echo _build/pylib/pylibamazed/_redshift.*.so)
[ -f $PKG/$(basename $so) ] && cmp -s $so $PKG/$(basename $so) || cp $so $PKG/
# the packaged data files
AUX=pylibamazed/auxdir/pylibamazed
diff -rq $AUX $PKG/resources > /dev/null 2>&1 || { rm -rf $PKG/resources; cp -rp $AUX $PKG/resources; }
