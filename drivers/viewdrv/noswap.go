//go:build go1.25 && zvnoinpkg

package viewdrv

import "go.opencensus.io/stats/view"

func swap() (view.Meter, func()) { return nil, nil }
