#!/bin/sh
# mut1.sh CHECK FILE SED-EXPR : one hand-made mutant (development aid)
rm -rf /tmp/w/r; mkdir -p /tmp/w/r; cp -a /repo/fixif /tmp/w/r/; sed -i "$3" "/tmp/w/r/$2"; diff "/repo/$2" "/tmp/w/r/$2"
FIXIF_REPO=/tmp/w/r VERIF_EVIDENCE=/tmp/w/ev /opt/venv/bin/python /verif/run.py $1 -v | grep -v ^OK
