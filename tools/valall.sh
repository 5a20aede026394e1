#!/bin/bash
# valall.sh ids... : two at a time
printf '%s\n' "$@" | xargs -P ${P:-3} -I{} bash -c 'bash /tmp/plant/val.sh {} > /tmp/plant/log.{} 2>&1'
