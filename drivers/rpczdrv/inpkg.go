//go:build go1.25 && !zvnoinpkg

package rpczdrv

import (
	"time"

	"go.opencensus.io/stats/view"
	"go.opencensus.io/zpages"
)

const inpkg = true

func reset(t time.Time)    { zpages.ZVReset(t) }
func export(vd *view.Data) { zpages.ZVExport(vd) }
