package zpages

import (
	"time"

	"go.opencensus.io/stats/view"
)

// ZVReset forgets all statistics and sets the time the program started.
func ZVReset(start time.Time) {
	mu.Lock()
	defer mu.Unlock()
	snaps = make(map[methodKey]*statSnapshot)
	programStartTime = start
}

// ZVExport delivers view data as the meter does.
func ZVExport(vd *view.Data) { snapExporter{}.ExportView(vd) }
