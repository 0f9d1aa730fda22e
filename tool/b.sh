cd /verif/tool; export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off; go vet . 2>&1 | grep -v "^#" | head; go build -o ../bin/zv .
