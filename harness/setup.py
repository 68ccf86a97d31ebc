"""Compiles the TLC override of the Floats module."""
import run

run.build()
print("ready")
