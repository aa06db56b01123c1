# sourced: build.sh TMP ID -> sets XMC, the checker built from /repo's current sources
cd "$VERIF/mc" || return 1
cat > "$1/zz_verif_export.go" <<'G'
package xbnf

// VerifPrepend makes the internal push-back stream reachable for the checks (build overlay only).
func VerifPrepend(base ICharstream, prepend []rune) ICharstream { return newCharstreamPrepend(base, prepend) }
G
case $2 in
C02|C12) XMODE=maps XRACE= ;;
C10|C11) XMODE=points,maps,sync XRACE=1 ;;
*) XMODE= XRACE= ;;
esac
if [ "$2" = -replay ]; then
	case $(grep -o '"property": *"C[0-9]*"' "$3" | grep -o 'C[0-9]*') in
	C02|C12) XMODE=maps ;;
	C10|C11) XMODE=points,maps,sync XRACE=1 ;;
	esac
fi
xbuild() {
	if [ -n "$XMODE" ]; then
		CGO_ENABLED=0 go run ./cmd/xinst /repo "$1" $XMODE "/repo/zz_verif_export.go=$1/zz_verif_export.go" || return 1
	else
		echo "{\"Replace\":{\"/repo/zz_verif_export.go\":\"$1/zz_verif_export.go\"}}" > "$1/overlay.json"
	fi
	if [ -n "$XRACE" ]; then
		export GORACE="exitcode=0 history_size=7 log_path=$1/race"
		CGO_ENABLED=1 go build -race -ldflags=-checklinkname=0 -overlay "$1/overlay.json" -o "$1/xmc" ./cmd/xmc
	else
		CGO_ENABLED=0 go build -ldflags=-checklinkname=0 -overlay "$1/overlay.json" -o "$1/xmc" ./cmd/xmc
	fi
}
if ! xbuild "$1" 2> "$1/build.log"; then
	# the internal constructor has another name or shape: go on without direct access to it
	printf 'package xbnf\n\nfunc VerifPrepend(base ICharstream, prepend []rune) ICharstream { return nil }\n' > "$1/zz_verif_export.go"
	xbuild "$1" || return 1
fi
if [ "$2" = C20 ] || { [ "$2" = -replay ] && grep -q '"C20"' "$3"; }; then
	(cd /repo && CGO_ENABLED=0 go build -o "$1/xbnfcli" ./main) || return 1
	export XMC_CLI=$1/xbnfcli
fi
XMC=$1/xmc
