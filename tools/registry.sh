#!/bin/bash
# regenerate registry.go
cd /verif/harness/h
{ echo "package h"; echo; echo "// Registry names the harness entry points for native replay (written by tools/registry.sh)."; echo "var Registry = map[string]func(int){"
grep -hoE '^func (C[0-9][0-9][A-Za-z0-9]*|Demo[A-Za-z]*)\([a-z_]* ?int\)' *.go | sed -E 's/func ([A-Za-z0-9]*).*/\t"\1": \1,/' | sort; echo "}"; } > /tmp/registry.go && mv /tmp/registry.go registry.go && gofmt -w registry.go 2>/dev/null || /opt/veriftools/go1.25.14/bin/gofmt -w registry.go
