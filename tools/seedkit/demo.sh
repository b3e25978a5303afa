#!/bin/bash
# Compiles jom's library from the sources in the current directory together with stand-ins for the Win32 API
# (kit/), runs demo.cpp in a scratch directory and passes on its exit code.
HERE=$(cd "$(dirname "$0")" && pwd); SRC=$PWD/src/jomlib
WORK=$(mktemp -d /tmp/jomdemo.XXXXXX) || exit 99
trap 'rm -rf "$WORK"' EXIT
FLAGS=(@FLAGS@)
REDEF=(@REDEF@)
mkdir -p "$WORK/o" "$WORK/m" "$WORK/scratch"
for h in "$SRC"/*.h; do
  grep -q Q_OBJECT "$h" || continue
  n=$(basename "$h" .h)
  moc -DWIN32 -D_WIN32 -DQ_OS_WIN "$h" | sed -E 's,#include "[^"]*/([a-z_A-Z0-9]+\.h)",#include "\1",' > "$WORK/m/moc_$n.cpp"
done
moc -DWIN32 -D_WIN32 -DQ_OS_WIN /usr/include/x86_64-linux-gnu/qt5/QtCore/qwineventnotifier.h > "$WORK/m/moc_qwineventnotifier.cpp"
comp() { clang++ "${FLAGS[@]}" -I"$SRC" -DRT_DEMO -I"$HERE/kit" -I"$WORK/m" -c "$1" -o "$2" || exit 98; }
for f in "$SRC"/*.cpp "$WORK"/m/moc_*.cpp; do
  n=$(basename "$f" .cpp); case $n in jomprocess_qt|moc_qwineventnotifier) continue;; esac
  comp "$f" "$WORK/o/jom_$n.o" &
done
if [ -f "$HERE/kit/app.h" ]; then
  A=$PWD/src/app; IFS=. read -r V1 V2 V3 < "$A/version.txt"
  ver=(-I"$A" -DJOM_VERSION_MAJOR=$V1 -DJOM_VERSION_MINOR=$V2 -DJOM_VERSION_PATCH=${V3:-0} -Dmain=jom_main)
  for h in "$A"/*.h; do n=$(basename "$h" .h); grep -q Q_OBJECT "$h" && moc -DWIN32 -D_WIN32 -DQ_OS_WIN "$h" | sed -E 's,#include "[^"]*/([a-z_A-Z0-9]+\.h)",#include "\1",' > "$WORK/m/app_$n.cpp"; done
  for f in "$A"/*.cpp "$WORK"/m/app_*.cpp; do clang++ "${FLAGS[@]}" -I"$SRC" "${ver[@]}" -DRT_DEMO -I"$HERE/kit" -I"$WORK/m" -c "$f" -o "$WORK/o/jom_app_$(basename "$f" .cpp).o" & done
fi
for f in rt_common rt_native winnotifier; do comp "$HERE/kit/$f.cpp" "$WORK/o/$f.o" & done
clang++ @PLAIN@ -I"$HERE/kit" -c "$HERE/kit/rt_disp.cpp" -o "$WORK/o/rt_disp.o" &
comp "$HERE/demo.cpp" "$WORK/o/demo.o" &
wait
[ -f "$WORK/o/demo.o" ] || exit 97
ld -r -o "$WORK/jom.o" "$WORK"/o/jom_*.o || exit 97
rd=(); for s in "${REDEF[@]}"; do rd+=(--redefine-sym "$s=h_$s"); done
objcopy "${rd[@]}" "$WORK/jom.o" || exit 97
LINK=(clang++ -fsanitize=address -rdynamic -o "$WORK/demo" "$WORK/jom.o" "$WORK"/o/rt_*.o "$WORK/o/winnotifier.o" "$WORK/o/demo.o")
if ! LC_ALL=C "${LINK[@]}" -lQt5Core -lpthread -ldl 2> "$WORK/err"; then
  { echo '#include <stdlib.h>'; grep -oE "(undefined reference to \`[A-Za-z_][A-Za-z_0-9]*'|hidden symbol \`[A-Za-z_][A-Za-z_0-9]*' isn't)" "$WORK/err" | grep -oE "\`[A-Za-z_0-9]+" | tr -d '`' | sort -u | sed 's/.*/long &() { abort(); }/'; } > "$WORK/stubs.c"
  clang -w -fPIC -fno-builtin -c "$WORK/stubs.c" -o "$WORK/stubs.o" && "${LINK[@]}" "$WORK/stubs.o" -lQt5Core -lpthread -ldl || exit 97
fi
cd "$WORK/scratch" || exit 97
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$WORK/demo"
rc=$?
echo "demo: exit code $rc"
exit $rc
