#!/bin/bash
# Generates the services in protos/ with the tree's generator and runs the demonstration against them; cwd is /repo.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
exec 2>&1
go build -buildvcs=false -o "$t/gentool" ./cmd/grpc-federation-generator || exit 1
mkdir "$t/out"
cat > "$t/cfg.yaml" <<X
imports: [$here/protos, $PWD/proto]
src: [$here/protos]
out: $t/out
plugins:
  - {plugin: go, opt: paths=source_relative}
  - {plugin: go-grpc, opt: paths=source_relative}
  - {plugin: grpc-federation, opt: ["paths=source_relative", "import_paths=$here/protos"]}
X
for f in "$here"/protos/*/*.proto; do
	(cd "$t" && ./gentool -c cfg.yaml "$f") > "$t/log" 2>&1 || cat "$t/log"
done
# The tracer of OpenTelemetry does not build offline: tracers that do nothing take its place.
find "$t/out" -name '*.go' -exec sed -i 's#"go.opentelemetry.io/otel"$#"github.com/mercari/grpc-federation/zzotel"#' {} +
mkdir "$t/out/zzotel"
cp "$here/otel.txt" "$t/out/zzotel/otel.go"
{
	printf '{"Replace":{"%s":"%s"' "$PWD/@PKG@/zz_seeded_demo_test.go" "$here/demo_test.go"
	(cd "$t/out" && find . -name '*.go' | sed 's#^\./##') | while read -r f; do printf ',"%s":"%s"' "$PWD/$f" "$t/out/$f"; done
	printf '}}'
} > "$t/overlay.json"
go test -c -o "$t/demo" -vet=off @RACE@-overlay "$t/overlay.json" ./@PKG@ || exit 1
cd "$t" && ./demo -test.run 'TestSeededDemo$' -test.timeout 120s
