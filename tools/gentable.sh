#!/bin/bash
# regenerates harness/h/table.go from the harness functions
cd "$(dirname "$0")/../harness/h" || exit 2
{
  echo "package h"
  echo
  echo "// Table lists the harnesses by name (generated by tools/gentable.sh)."
  echo "var Table = map[string]func(){"
  grep -hoE "^func [CX][0-9]{2}_[A-Za-z0-9_]+\(\)" *.go | sed -E 's/^func (.*)\(\)/\1/' | sort | sed -E 's/(.*)/\t"\1": \1,/'
  echo "}"
} > table.go
gofmt -w table.go
