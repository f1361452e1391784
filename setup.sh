#!/bin/bash
# builds the framework: the checks build /repo themselves, this only warms the cache
cd "$(dirname "$0")" && mkdir -p evidence && python3 -m vp.build
