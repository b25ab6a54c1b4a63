#!/bin/bash
# nothing to build: checks the tools and that the specifications parse
cd "$(dirname "$0")/../spec" || exit 1
for f in *.tla; do tla-sany "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }; done
rm -f /tmp/sany.$$
/opt/venv/bin/python -c "import numpy, scipy" || exit 1
echo ok
