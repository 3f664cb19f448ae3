#!/usr/bin/env python3
"""Build every harness once (setup_cmd); the checks rebuild whatever has changed."""
import sys
import vpbuild, c_capi, c_silo

HARNESSES = [("tess", dict(sources=["tess.cc"])), ("dist", dict(sources=["dist.cc", "vpmpi.cc"])),
             ("edit", dict(sources=["edit.cc"])), ("serial", dict(sources=["serial.cc"])),
             ("capi", dict(sources=["capi.cc"], c_api=True, libs=c_capi.WRAP)),
             ("silo", dict(sources=["silo.cc"], c_api=True, libs=c_silo.WRAP)),
             ("csg", dict(sources=["csg.cc"])), ("geo", dict(sources=["geo.cc"])), ("adt", dict(sources=["adt.cc"])), ("quant", dict(sources=["quant.cc"]))]


def main():
    for name, kw in HARNESSES:
        print(name, vpbuild.build(name, **kw))


if __name__ == "__main__":
    main()
