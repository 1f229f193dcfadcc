# sourced by demo.sh: builds "$here/$1.cc" against the built tree and runs it
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d /tmp/mcbbuildXXXXXX)"
trap 'rm -rf "$work"' EXIT
B="$PWD/_build/src"
g++ -std=c++17 -g -w ${ASAN:+-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all} $EXTRA -I"$PWD/src" -I"$PWD/src/Engine" -I"$PWD/src/Engine/gramambular2" -I"$PWD/src/Engine/Mandarin" -I"$PWD/src/ChineseNumbers" -I/usr/include/json-c -I"$here" \
  -I/usr/include/Fcitx5/Core -I/usr/include/Fcitx5/Config -I/usr/include/Fcitx5/Utils \
  -I/usr/include/Fcitx5/Module -I/usr/include/Fcitx5/Module/fcitx-module/notifications \
  -DFMT_SHARED -DFCITX_GETTEXT_DOMAIN=\"fcitx5-mcbopomofo\" \
  "$here/$1.cc" ${ENGINE:+"$PWD/src/McBopomofo.cpp"} ${ASAN:+$PWD/src/KeyHandler.cpp $PWD/src/DictionaryService.cpp} $SRCS -o "$work/demo" \
  "$B/libMcBopomofoLib.a" "$B/Engine/gramambular2/libgramambular2_lib.a" "$B/Engine/libMcBopomofoLMLib.a" \
  "$B/Engine/Mandarin/libMandarinLib.a" "$B/ChineseNumbers/libChineseNumbersLib.a" \
  -lFcitx5Core -lFcitx5Config -lFcitx5Utils -lfmt -ljson-c -licuuc -licui18n -ldl || exit 3
ASAN_OPTIONS=detect_leaks=${LEAKS:-0} timeout 120 "$work/demo"
