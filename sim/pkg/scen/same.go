package scen

import (
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
)

// digestLines describes lines briefly enough to be compared between processes.
func digestLines(lines []string) string {
	var b strings.Builder
	for _, l := range lines {
		h := fnv.New64a()
		h.Write([]byte(l))
		head := l
		if len(head) > 160 {
			head = head[:160]
		}
		fmt.Fprintf(&b, "%s [%x]\n", head, h.Sum64())
	}
	return b.String()
}

func init() {
	var err error
	var g *glass.Glass
	hx.Register("answers", &hx.Scenario{
		World: true,
		Setup: func(c *hx.Ctx) {
			inputs(c)
			tune(c)
		},
		Body: func(c *hx.Ctx) {
			cache := ""
			if c.Arg("disk") != 0 {
				cache = cachePath
			}
			flags := flagsFor(c, c.Arg("flags"))
			l := loadGlass(c, cache, newStats(c), flags)
			g, err = l.glass, l.err
			if err != nil {
				return
			}
			faults := c.K.Faults
			c.K.Faults = nil
			c.Res.Digest["contents"] = digestLines(contents(c, g))
			c.Res.Digest["answers"] = digestLines(answers(c, g))
			c.EventN("answers compared", len(pages(c, g.Flags)))
			if again := digestLines(answers(c, g)); again != c.Res.Digest["answers"] {
				c.Fail("again", "asked again, answers differ: %s", firstDiff(c.Res.Digest["answers"], again))
			}
			c.K.Faults = faults
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			if c.Cleanly() && err != nil {
				c.Fail("error", "loading failed: %v", err)
			}
		},
	})
}
