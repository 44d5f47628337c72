#!/bin/bash
# regenerates every derived file
cd "$(dirname "$0")" && python3 kf.py && python3 gen.py && python3 design.py
