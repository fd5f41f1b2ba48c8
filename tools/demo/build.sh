# sourced by demo.sh: instantiates the headers of the tree in the current directory and gives $W, $CC
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/inc/libhmac"
inst() { sed -e 's/@VERSION@/20241028/g' -e 's/@HAVE_SYS_TYPES_H@\|@HAVE_INTTYPES_H@\|@HAVE_STDINT_H@\|@HAVE_WCHAR_H@\|@HAVE_OFF64_T@/1/g' -e 's/@PACKAGE@/libhmac/g' -e 's/@[A-Z0-9_]*@/0/g' "$1" > "$W/inc/$2"; }
inst include/libhmac.h.in libhmac.h
inst include/libhmac/definitions.h.in libhmac/definitions.h
inst include/libhmac/features.h.in libhmac/features.h
inst include/libhmac/types.h.in libhmac/types.h
inst libhmac/libhmac_definitions.h.in libhmac_definitions.h
inst common/types.h.in types.h
CC="gcc -w -DHAVE_CONFIG_H -I$D -I$W/inc -Iinclude -Icommon -Ilibhmac"
LIB=""
for a in md5 sha1 sha224 sha256 sha512; do LIB="$LIB libhmac/libhmac_$a.c libhmac/libhmac_${a}_context.c"; done
LIB="$LIB $D/libcerror.c"
