#!/bin/sh
# rundrv.sh P03 [dlib options]: run one driver against /repo as built (development)
. /opt/vp/lib/env.sh >/dev/null 2>&1
cd /tmp && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=${TREE:-/repo} /opt/venv/bin/python /verif/drivers/dlib.py "$@" 2>&1 | tail -${LINES_MAX:-12} | cut -c1-${WIDTH:-1500}
