#!/bin/bash
# DESIGN.md = doc/head.md + the table from the checks + doc/tail.md + doc/seeds.md
cd "$(dirname "$0")/.." && { cat doc/head.md; python3 tools/design_table.py; cat doc/tail.md doc/seeds.md; } > DESIGN.md
