package recast

// Access to the spans of a heightfield for the checks in /verif (this file is
// added to the package by a build overlay only). The fields and addSpan are the
// ones the package's own tests use.

// VSpan is a span of a column.
type VSpan struct {
	Min, Max int
	Area     uint8
}

// VColumn lists the spans of a column, at most max of them.
func VColumn(hf *Heightfield, x, y int32, max int) []VSpan {
	var res []VSpan
	for s := hf.Spans[x+y*hf.Width]; s != nil && len(res) < max; s = s.next {
		res = append(res, VSpan{int(s.smin), int(s.smax), s.area})
	}
	return res
}

// VAddSpan adds a span to a column.
func VAddSpan(hf *Heightfield, x, y int32, smin, smax uint16, area uint8, thr int32) bool {
	return hf.addSpan(x, y, smin, smax, area, thr)
}
