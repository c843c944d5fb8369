#!/bin/sh
cd /verif && PYTHONPATH=build/mod /opt/higra/venv/bin/python -W ignore tools/gen_design.py
