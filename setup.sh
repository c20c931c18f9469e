#!/bin/bash
# nothing has to be built: checks that what's needed is there and that the simulator starts
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, scipy, xarray, dask, h5netcdf, pandas"
