#!/bin/bash
# writes DESIGN.md: head + one section per property + tail
cd "$(dirname "$0")/.." && python3 tools/mkdesign_part.py && { cat tools/design_head.md; echo "## Per property"; echo; cat /tmp/perprop.md; cat tools/design_tail.md; } > DESIGN.md
