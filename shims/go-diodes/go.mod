module code.cloudfoundry.org/go-diodes

go 1.18
