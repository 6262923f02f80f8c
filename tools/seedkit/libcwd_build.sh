# Sourced by demo.sh with cwd /repo: builds all of libcwd (debug.cxx and dwarf.cxx included, which need the stand-ins for the
# missing threadsafe submodule that lie beside this file) into a scratch directory $T, and compiles $D/demo.cpp to $T/demo.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc/libcwd" "$T/inc/threadsafe" "$T/o"
cp "$D"/shim_*.h "$T/inc/threadsafe/"
for f in "$T"/inc/threadsafe/shim_*.h; do mv "$f" "${f/shim_/}"; done
defs='HAVE_PWD_H HAVE_SYS_RESOURCE_H HAVE_DLOPEN HAVE_GETEGID HAVE_GETGROUPS HAVE_GETGID HAVE_BUILTIN_EXPECT'
conf() { sed -e 's/@CW_CONFIG_LOCATION@/1/; s/@CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET@/-1/; s/@CW_CONFIG_[A-Z_]*@/0/; s/@libcwd_datadir@/\/nonexistent/; s/@VERSION_MAJOR@/2/; s/@VERSION_[A-Z]*@/0/g; s/@[A-Za-z_]*@//g' "$1"; }
conf include/libcwd/config.h.in > "$T/inc/libcwd/config.h"
conf include/cwd_sys.h.in > "$T/inc/cwd_sys.h"
conf include/cmake-config.h.in > "$T/inc/config.h"
for d in $defs; do sed -i "s/#cmakedefine01 $d\$/#define $d 1/; s/#cmakedefine $d\$/#define $d/; s/#cmakedefine $d .*/#define $d/" "$T/inc/config.h"; done
sed -i 's/#cmakedefine01 \(.*\)/#define \1 0/; s/#cmakedefine .*//' "$T/inc/config.h"
FLAGS="-std=c++20 -g -O0 -fPIC -w -DCWDEBUG -DVERSION=\"x\" $EXTRA -I$T/inc -I$R/include -I$R -I$T/inc/libcwd -I$D"
ls src/*.cxx src/utils/*.cxx | xargs -P 8 -I{} sh -c 'g++ '"${FLAGS//\"/\\\"}"' -c {} -o '"$T"'/o/$(echo {} | tr / _).o 2>>'"$T"'/err' || { head -n 20 "$T/err"; echo build failed; exit 0; }
g++ $EXTRA -shared -Wl,-soname,libcwd.so -o "$T/libcwd.so" "$T"/o/*.o -ldw -lelf -ldl -lpthread || { echo link failed; exit 0; }
g++ $FLAGS -fPIE "$D/demo.cpp" -o "$T/demo" -L"$T" -Wl,-rpath,"$T" -lcwd -ldw -lelf -ldl -lpthread || { echo demo does not compile; exit 0; }
