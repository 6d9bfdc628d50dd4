#!/bin/bash
# nothing to compile: build the matplotlib font cache once so that no check pays for it
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p .cache/mpl
MPLCONFIGDIR="$PWD/.cache/mpl" MPLBACKEND=Agg /opt/venv/bin/python -B -c 'import matplotlib.pyplot, numpy, scipy, h5py, sklearn, pandas, soundfile'
