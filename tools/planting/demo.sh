#!/bin/bash
export TZ=${TZ:-UTC} PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"
