package main

import (
	"fmt"
	"os"

	"github.com/FAU-CDI/hangover/internal/zverif/driver"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	_ "github.com/FAU-CDI/hangover/internal/zverif/scen"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		hx.Worker()
		return
	}
	if err := driver.Main(os.Args[1:]); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(3)
	}
}
