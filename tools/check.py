#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import sys, traceback, importlib
import vp

MODULES = {"C01": "c_tess", "C02": "c_tess", "C03": "c_tess", "C04": "c_tess", "C05": "c_tess",
           "C06": "c_dist", "C07": "c_dist", "C08": "c_dist", "C09": "c_dist", "C19": "c_dist",
           "C20": "c_hist", "C10": "c_edit", "C11": "c_edit", "C12": "c_serial", "C13": "c_capi", "C14": "c_silo", "C15": "c_csg", "C16": "c_plc",
           "C17": "c_geo", "C18": "c_quant", "C21": "c_adt"}


def main():
    pid = sys.argv[1]
    try:
        m = importlib.import_module(MODULES[pid])
        rc = getattr(m, pid.lower())()
    except vp.BuildError as e:
        print("cannot build: %s" % e)
        rc = 2
    except vp.CheckError as e:
        print("check error: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
