#!/bin/bash
# builds the IR reader; everything else is Python
cd "$(dirname "$0")/.." && python3 -c "import sys; sys.path.insert(0,'lib'); import pipe; print(pipe.tool())"
