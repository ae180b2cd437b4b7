cd /verif/checker && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o /tmp/ck . && /tmp/ck -all -repo ${REPO:-/repo} -verif /verif "$@"
