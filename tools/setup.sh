#!/bin/bash
# builds the library and the drivers once; every check rebuilds what changed
cd "$(dirname "$0")/.." && bash harness/build.sh plain xbw_driver jsmn_driver sort_driver values_driver xb_driver disk_driver && bash harness/build.sh image xb_driver && mkdir -p evidence
