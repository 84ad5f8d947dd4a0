"""Warms the cache of compiled variants."""
from . import build

if __name__ == "__main__":
    for v in build.VARIANTS:
        print(v, build.build(v))
    print("poison", build.build_poison())
