#!/bin/bash
cd "$(dirname "$0")" && exec bash check.sh build quick
