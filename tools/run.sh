#!/bin/bash
cd /verif
PYTHONPATH=/verif:/opt/veriftools/pyvenv/lib/python3.12/site-packages PYTHONHASHSEED=0 exec /opt/venv/bin/python "$@"
