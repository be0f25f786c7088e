# Builds parts of the tree in the current directory (the repository) outside of it.
# F0: built-in digests; E2: OpenSSL EVP (the default of the build)
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
E2="-DHAVE_LIBCRYPTO -DHAVE_OPENSSL_EVP_H -DHAVE_EVP_MD5 -DHAVE_EVP_SHA1 -DHAVE_EVP_SHA224 -DHAVE_EVP_SHA256 -DHAVE_EVP_SHA512 -DHAVE_EVP_DIGESTINIT_EX2"
CC=${CC:-gcc}; OPT=${OPT:--O2}; LOOPS=${LOOPS:-}
headers() {
	mkdir -p "$W/gen/libhmac"
	for h in include/libhmac.h include/libhmac/definitions.h include/libhmac/features.h include/libhmac/types.h common/types.h libhmac/libhmac_definitions.h; do
		o=$W/gen/${h#include/}; case $h in common/*|libhmac/*) o=$W/gen/$(basename $h);; esac
		sed -e 's/@VERSION@/20241028/; s/@PACKAGE@/libhmac/' -e 's/@HAVE_\(SYS_TYPES_H\|INTTYPES_H\|STDINT_H\|WCHAR_H\)@/1/g; s/@[A-Z][A-Z0-9_]*@/0/g' "$R/$h.in" > "$o"
	done
	[ -z "$LOOPS" ] || sed -i '/define  *LIBHMAC_UNFOLLED_LOOPS/d' "$W/gen/libhmac_definitions.h"
	cp "$D/stubs/config_base.h" "$W/gen/config.h"
	INC="-w -g $OPT -DHAVE_CONFIG_H -D_GNU_SOURCE -I$W/gen -I$R/include -I$R/common -I$R/libhmac -I$D/stubs"
}
lib() { # lib F0|E2 [flags]: $W/lib.a
	headers; local def= ; LINK=; [ "$1" != E2 ] || { def=$E2; LINK=-lcrypto; }; shift
	mkdir -p "$W/o"
	ls "$R"/libhmac/*.c "$D/stubs/libcerror_stub.c" | xargs -P8 -I{} sh -c "$CC -c -fPIC $INC $def $* {} -o $W/o/\$(basename {} .c).o" || exit 99
	ar rcs "$W/lib.a" "$W"/o/*.o || exit 99
	FLAGS="$*"
}
demo() { # demo F0|E2 [flags]: builds and runs demo.c
	lib "$@"; $CC $INC $FLAGS -I$R/hmactools -I"$D" "$D/demo.c" "$W/lib.a" $LINK -lpthread -ldl -lm -o "$W/demo" || exit 99
	(cd "$W" && timeout 200 ./demo)
}
tool() { # tool [flags]: $W/hmacsum
	lib F0; local f="$*"; mkdir -p "$W/t"
	for s in "$R"/hmactools/*.c "$D/stubs/tool_stub.c"; do $CC -c $INC -I$R/hmactools $f "$s" -o "$W/t/$(basename $s .c).o" || exit 99; done
	$CC $FLAGS $f "$W"/t/*.o "$W/lib.a" -lpthread -o "$W/hmacsum" || exit 99
}
pyext() { # pyext [flags]: $W/pyhmac.so
	lib F0; mkdir -p "$W/p"
	for s in "$R"/pyhmac/*.c; do $CC -c -fPIC $INC -I$R/pyhmac -I/usr/include/python3.12 "$@" "$s" -o "$W/p/$(basename $s .c).o" || exit 99; done
	$CC -shared "$W"/p/*.o "$W/lib.a" -o "$W/pyhmac.so" || exit 99
}
