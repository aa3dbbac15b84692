#!/usr/bin/env python3
"""builds the executor, the LLVM IR of harness and crate, and the replayer (each check does so as well when it is not there)"""
import check

check.build(["dev", "rel", "rx"])
