package cmds_test

import (
	"io"
	"log"
)

var discard = log.New(io.Discard, "", 0)
