#!/bin/sh
# Offline sanity of the tools that the checks use; builds nothing that a check needs to find.
set -e
cd "$(dirname "$0")/.."
java -version 2>&1 | head -1
go version
python3 --version
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
python3 -c 'import sys; sys.path.insert(0, "bin"); import props; print(len(props.PROPS), "properties")'
