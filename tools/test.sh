#!/bin/bash
# the repository's own tests, quietly
bash /opt/vp/test.sh /tmp/vp_test.json > /tmp/vp_test.log 2>&1; tail -1 /tmp/vp_test.log; grep ^FAILED /tmp/vp_test.log
