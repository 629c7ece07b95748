#!/bin/bash
# Runs Jython as the repository's own tests are run here, with the checks'
# library and the stand-ins first on the path.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
J=/usr/share/java
REPO=${VERIF_REPO:-/repo}
export JYTHONPATH=$V/stubs:$V/lib:/opt/jysite:$REPO PYTHONDONTWRITEBYTECODE=1 PRIVCOUNT_DIRECTORY=$REPO LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME
exec /usr/bin/java -XX:+UseSerialGC -XX:TieredStopAtLevel=${VERIF_TIERED:-4} -Xss8m -Xmx${VERIF_HEAP:-1500m} -Djava.net.preferIPv4Stack=true \
    -cp $J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar \
    -Dpython.home=/usr/share/jython -Dpython.executable=/usr/bin/jython -Dpython.cachedir.skip=true \
    org.python.util.jython -B "$@"
