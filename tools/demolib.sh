# Sourced by demo.sh with cwd /repo after a build. Everything runs as an unprivileged user with files of its own,
# as root of a user namespace of its own, in a scratch directory removed afterwards.
if [ -z "${DEMO_T:-}" ]; then
	T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
	mkdir -p "$T/bin" "$T/r/var/lib/pkg/DB" "$T/p" "$T/home"
	D=$(cd "$(dirname "$0")" && pwd)
	cp "$D"/* "$T/home/" 2>/dev/null
	for b in cards pkgadd; do cp "$PWD/src/$b" "$T/bin/" || exit 99; done
	cp "$PWD/scripts/pkgmk" "$T/bin/" 2>/dev/null
	ln -s pkgadd "$T/bin/pkgrm"; ln -s pkgadd "$T/bin/pkginfo"
	chmod -R a+rX "$T"; chown -R 65533:65533 "$T"
	( cd "$T" && DEMO_T=$T PATH=$T/bin:/usr/bin:/bin setpriv --reuid 65533 --regid 65533 --clear-groups unshare -Ur bash "$T/home/demo.sh" )
	r=$?
	rm -rf "$T"
	exit $r
fi
T=$DEMO_T; R=$T/r; DB=$R/var/lib/pkg/DB
cd "$T" || exit 99
fail() { echo "DEMO: $*" >&2; exit 1; }
# pk NAME VERSION MEMBERS... : archive $T/p/NAME#VERSION of $T/w/NAME-VERSION, which the caller filled; EXTRA are further META lines
pk() {
	n=$1; v=$2; d=$T/w/$n-$v; mkdir -p "$d"
	printf 'N%s\nV%s\nr1\nB1600000000\nS10\nccli\naany\nDa package\nLGPL\n%s' "$n" "$v" "${EXTRA:-}" > "$d/.META"
	( cd "$d" && find . -mindepth 1 ! -path './.*' \( -type d -printf '%P/\n' -o -printf '%P\n' \) | LC_ALL=C sort > .MTREE
	for s in .P*; do test -e $s && echo $s >> .MTREE; done
	{ for s in .META .MTREE .PRE .POST; do test -e $s && echo $s; done; ls .P* 2>/dev/null | grep -vx -e .PRE -e .POST; find . -mindepth 1 ! -path './.*' | sed 's,^\./,,' | LC_ALL=C sort; } | awk '!s[$0]++' | tar --no-recursion --owner=0 --group=0 -T - -cf "$T/p/$n-$v.cards.tar" ) || exit 99
}
# f PACKAGE-VERSION PATH CONTENT
f() { mkdir -p "$(dirname "$T/w/$1/$2")"; printf '%s' "$3" > "$T/w/$1/$2"; }
add() { a=$1; shift; pkgadd -r "$R" "$@" "$T/p/$a.cards.tar" > out 2> err; }
# --- cards, in a directory of its own as / ---
J=$T/j
# mkjail : copies cards and the libraries it needs
mkjail() {
	mkdir -p "$J"/{etc,usr/bin,bin,tmp,depot,local,www,var/lib/pkg/DB,usr/share} || exit 99
	cp "$T/bin/cards" "$J/usr/bin/" || exit 99
	ldd "$J/usr/bin/cards" | grep -o '/[^ ]*' | while read -r l; do mkdir -p "$J$(dirname "$l")"; cp -L "$l" "$J$l"; done
	printf 'name NuTyX\nversion rolling\n' > "$J/var/lib/pkg/nutyx-version"
}
# cards COMMAND... in there
c() { /usr/sbin/chroot "$J" /usr/bin/cards "$@" > out 2> err; }
# arc COLLECTION NAME VERSION [BUILD] : builds the archive as pk does; EXTRA are further META lines
arc() {
	mkdir -p "$T/w/$2-$3"
	pk "$2" "$3"
	sed -i "s/^ccli/c$1/; s/^B.*/B${4:-1600000000}/" "$T/w/$2-$3/.META"
	( cd "$T/w/$2-$3" && { echo .META; echo .MTREE; find . -mindepth 1 ! -path './.*' | sed 's,^\./,,' | LC_ALL=C sort; } | tar --no-recursion --owner=0 --group=0 -T - -cf "$T/p/$2.cards-$3-1" ) || exit 99
}
# offer DIRECTORY NAME VERSION : lists the archive in .REPO and .FILES of the directory; a KEY signs it
offer() {
	mkdir -p "$1"; a=$2.cards-$3-1; cp "$T/p/$a" "$1/"
	h=$(sha512sum < "$1/$a" | cut -d' ' -f1); s=
	if [ -n "${KEY:-}" ]; then
		openssl dgst -sha512 -binary "$1/$a" > "$T/h.bin"
		openssl pkeyutl -sign -rawin -inkey "$KEY" -in "$T/h.bin" -out "$T/s.bin" || exit 99
		s=$(od -An -v -tx1 "$T/s.bin" | tr -d ' \n')
		openssl pkey -in "$KEY" -pubout -out "$1/.PKEY" || exit 99
	fi
	{ echo "@$a"; cat "$T/w/$2-$3/.META"; printf 'H%s\nI%s\ni%d\n\n' "${HASH:-$h}" "$s" "$(stat -c %s "$1/$a")"; } >> "$1/.REPO"
	{ echo "@$a"; ( cd "$T/w/$2-$3" && find . -mindepth 1 ! -path './.*' \( -type d -printf '%P/\n' -o -printf '%P\n' \) | LC_ALL=C sort ); echo; } >> "$1/.FILES"
}
newkey() { KEY=$T/key; openssl genpkey -algorithm ed25519 -out "$KEY" 2>/dev/null || exit 99; }
# publish DIRECTORY : compresses what the mirror lists
publish() { for x in .REPO .FILES; do zstd -q -f "$1/$x" -o "$1/$x.zst" || exit 99; done; }
