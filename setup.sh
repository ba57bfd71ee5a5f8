#!/bin/bash
# builds the exporter when the committed binary does not match its source, and the protobuf code; every check does this itself when needed
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 python3-vt -c 'from spuv import build; build.exporter(); build.gen()'
