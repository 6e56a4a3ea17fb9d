"""Builds the extractor from the committed source."""
import sys

from vp import load

try:
    load.build_extractor()
except load.Broken as e:
    print(e)
    sys.exit(1)
print("extractor ready:", load.EXTRACT)
