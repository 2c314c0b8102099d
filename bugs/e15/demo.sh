#!/bin/bash
# compiles and runs the demonstration against the installed library
D=$(cd "$(dirname "$0")" && pwd)
I=/opt/cyclus/install
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O0 -include /opt/cyclus/cmake/missing_weak.h -DBOOST_VERSION_MINOR=83 \
  -I$I/include/cyclus -I$I/include -I/usr/include/hdf5/serial -I/usr/include/coin -I/usr/include/libxml2 \
  -I/usr/include/libxml++-2.6 -I/usr/lib/x86_64-linux-gnu/libxml++-2.6/include \
  -I/usr/include/glibmm-2.4 -I/usr/lib/x86_64-linux-gnu/glibmm-2.4/include \
  -I/usr/include/glib-2.0 -I/usr/lib/x86_64-linux-gnu/glib-2.0/include \
  -I/usr/include/sigc++-2.0 -I/usr/lib/x86_64-linux-gnu/sigc++-2.0/include \
  "$D/demo.cc" -o "$T/demo" -L$I/lib -Wl,-rpath,$I/lib -lcyclus \
  -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,--allow-shlib-undefined \
  -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lhdf5_hl -lsqlite3 -lboost_system -lboost_filesystem -lxml++-2.6 -lxml2 -lglibmm-2.4 -lglib-2.0 || exit 3
cd "$T" && timeout 120 ./demo
