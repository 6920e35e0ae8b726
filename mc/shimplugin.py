"""pytest plugin: lets the repository's own tests run without the native module (used to validate fixes by hand)."""
from mc import shim

shim.install()
