#!/bin/bash
# build.sh <property> [release|plain]: builds the check's program from /repo's working tree and prints its path.
cd "$(dirname "$0")/.." || exit 3
id=$1
profile=${2:-release}
out=$id
[ "$profile" = release ] || out=$id.$profile
mkdir -p out/bin
features=${id,,}
[ "$id" = C15 ] || features=alloc,$features
exec 9>out/bin/.lock
flock 9
# cargo goes by file times; what counts here is the content.
now=$(cd /repo && find Cargo.toml src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/.repo-stamp.$profile 2>/dev/null)" ] && [ -d target ]; then
    (cd harness && cargo clean -q --offline --profile "$profile" --target-dir ../target -p nominals -p nomcheck) >&2
fi
mkdir -p target
(cd harness && cargo build -q --profile "$profile" --offline --target-dir ../target --features "$features") >&2 || exit 1
echo "$now" > "target/.repo-stamp.$profile"
cp -f "target/$profile/nomcheck" "out/bin/$out.new" && mv -f "out/bin/$out.new" "out/bin/$out" || exit 1
echo "$PWD/out/bin/$out"
