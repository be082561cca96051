# Sourced by check.sh and setup.sh: builds into $S. Nothing is written to the repository or to /verif.
mkdir -p "$S/bin"
cp "$VERIF_DIR/harness/go.mod" "$S/go.mod"
cp "$REPO/go.sum" "$S/go.sum"
sed -i "s#=> /repo#=> $REPO#" "$S/go.mod"
OVERLAY=
export VERIF_OVERLAY=
# y.go is generated from asn1.y. If only the grammar was edited, the regenerated parser stands in for y.go,
# just as in the build of the repository.
B=/opt/vp/base
if [ -f $B/asn1.y.sha256 ] && [ -f $B/y.go.sha256 ] && [ -x /opt/vp/bin/goyacc ] &&
   [ "$(sha256sum < "$REPO/asn1.y")" != "$(cat $B/asn1.y.sha256)" ] && [ "$(sha256sum < "$REPO/y.go")" = "$(cat $B/y.go.sha256)" ]; then
  mkdir -p "$S/y"
  (cd "$S/y" && cp "$REPO/asn1.y" . && /opt/vp/bin/goyacc -o y.go -v y.output asn1.y >/dev/null 2>&1) || { echo "goyacc failed" >&2; return 1; }
  echo "{\"Replace\": {\"$REPO/y.go\": \"$S/y/y.go\"}}" > "$S/overlay.json"
  OVERLAY="-overlay=$S/overlay.json"
  export VERIF_OVERLAY=$S/overlay.json
fi
RACE=
# VERIF_COVER=1 measures which statements of the repository the check reaches. It is slow, as all cores write the same counters.
COVER=
if [ -n "${VERIF_COVER:-}" ]; then COVER="-cover -coverpkg=verif/cmd/verif,github.com/chemikadze/asn1go"; fi
if [ "$ID" = C18 ]; then RACE=-race; COVER=; fi
(cd "$VERIF_DIR/harness" && GOFLAGS= go build -mod=mod -modfile="$S/go.mod" $OVERLAY $RACE $COVER -o "$S/bin/verif" ./cmd/verif) || return 1
case "$ID" in
C19|C20|setup)
  cp "$REPO/go.mod" "$S/repo.mod"; cp "$REPO/go.sum" "$S/repo.sum"
  (cd "$REPO" && GOFLAGS= go build -mod=mod -modfile="$S/repo.mod" $OVERLAY -o "$S/bin/" ./cmd/asn1go ./cmd/ws2bin) || return 1 ;;
esac
return 0
