#!/usr/bin/env python3
"""offline build of the monitors"""
import check
check.build()
print("monitors built:", check.VMON)
import shutil
shutil.rmtree(check.FEAT + "/target", ignore_errors=True)
print("feature workload built:", bool(check.feat_build("full")[0]))
