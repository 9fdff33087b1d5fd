#!/bin/bash
# builds the analysers from the committed sources (cached by content)
cd "$(dirname "$0")" && python3 -c 'import check; print(check.tool()[0])'
