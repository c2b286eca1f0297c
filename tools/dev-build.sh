cd /verif/govc && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local go1.26 build -o /tmp/govc .
