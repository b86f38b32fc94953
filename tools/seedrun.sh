#!/bin/bash
# seedrun.sh ID...: runs all checks on a copy of /repo with each planted bug applied
for id in "$@"; do
	d=/tmp/seedrun.$$/$id; mkdir -p $d
	cp -a /repo $d/repo; git -C $d/repo apply /verif/seeded/$id/patch.diff || echo FAILED-APPLY
	echo "== $id ($(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"))"
	OPENMPS_REPO=$d/repo python3 /verif/tools/batch.py ${BATCH:---configs=default,serial,standard,gc,dim3,explicit} --show=1 | grep -A1 "VIOL\|ERR"
	rm -rf /tmp/seedrun.$$/$id
done
rmdir /tmp/seedrun.$$
