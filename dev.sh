# development helper: build the tool
export GO111MODULE=on GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOCACHE=/tmp/gvcache GOFLAGS=-mod=vendor PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GV_CACHE=/tmp/gvq
mkdir -p $GV_CACHE
(cd /verif/tool && go build -o /tmp/gv .)
