#!/bin/bash
# builds the extractor once (each check builds it again if it is not there)
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'.')
from sa import facts; fx = facts.load(); print(len(fx.tus), 'translation units,', len(fx.fns), 'functions')"
