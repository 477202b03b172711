package view

// ZVSwap replaces the default meter by a new one; restore undoes it.
func ZVSwap() (m Meter, restore func()) {
	old := defaultWorker
	w := NewMeter().(*worker)
	defaultWorker = w
	return w, func() { defaultWorker = old }
}
