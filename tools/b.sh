#!/bin/bash
# dev helper: build the harness and show only errors and harness warnings
cd "$(dirname "$0")/../harness" && cargo build --offline --release 2>&1 | awk 'BEGIN{RS="";ORS="\n\n"} /error|--> src\/(props|gen|infra|sys|refm|main)/' | head -${1:-60}
