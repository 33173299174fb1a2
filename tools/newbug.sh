#!/bin/bash
# fresh scratch copy of /repo HEAD in /tmp/bugrepo
rm -rf /tmp/bugrepo && git clone -q /repo /tmp/bugrepo
