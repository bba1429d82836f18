#!/bin/bash
# Nothing to build ahead of time: the checks import /repo's working tree and compile what they need in scratch folders.
/opt/venv/bin/python -c "import numpy, dask, h5py, zarr" && mkdir -p "$(dirname "$0")/evidence"
