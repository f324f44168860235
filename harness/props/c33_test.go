package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/arl/go-detour/recast"

	"verif/harness/gen"
	"verif/harness/hx"
)

// The log keeps that many entries.
const maxLogEntries = 1000

func TestC33(t *testing.T) {
	hx.Run(t, "log", "messages of several categories were written, some while logging was disabled or before a reset", 20000, 300000,
		func(c *hx.Case) {
			r := gen.New(c.T)
			state := r.Bool("state")
			ctx := recast.NewBuildContext(state)
			enabled := state
			var log []string
			nOps := r.Int("ops", 1, 60)
			burst := r.P(0.05)
			cats := map[string]bool{}
			lost, resets := 0, 0
			for i := 0; i < nOps; i++ {
				switch op := r.U(0, 9); {
				case op == 0:
					enabled = r.P(0.7)
					ctx.EnableLog(enabled)
				case op == 1 && r.P(0.4):
					if enabled { // whether a disabled log can be reset is not specified
						ctx.ResetLog()
						log = nil
						resets++
					}
				case op == 2:
					// timers have no effect on the log
					ctx.EnableTimer(r.P(0.5))
					ctx.ResetTimers()
					ctx.StartTimer(recast.TimerTemp)
					ctx.StopTimer(recast.TimerTemp)
				case op == 3:
					var buf bytes.Buffer
					ctx.DumpLog(&buf, "header %d %s", i, "x%d")
					want := fmt.Sprintf("header %d x%%d\n", i)
					for _, l := range log {
						want += l + "\n"
					}
					if buf.String() != want {
						c.Fatalf("DumpLog wrote\n%q\nshould be\n%q", buf.String(), want)
					}
				default:
					n := 1
					if burst && r.P(0.2) {
						n = r.U(1, 900)
					}
					for ; n > 0; n-- {
						var msg string
						var f func(string, ...interface{})
						cat := gen.Any(r, "PROG", "WARN", "ERR")
						switch cat {
						case "PROG":
							f = ctx.Progressf
						case "WARN":
							f = ctx.Warningf
						case "ERR":
							f = ctx.Errorf
						}
						switch r.U(0, 4) {
						case 0:
							f("plain")
							msg = "plain"
						case 1:
							a, b := r.U(-99, 99), r.F(-1, 1)
							f("%d and %.3f", a, b)
							msg = fmt.Sprintf("%d and %.3f", a, b)
						case 2:
							s := strings.Repeat("é%", r.U(0, 50))
							f("[%s] 100%%", s)
							msg = "[" + s + "] 100%"
						case 3:
							f("")
						case 4:
							f("%v %q", []int{i, n}, "q")
							msg = fmt.Sprintf("%v %q", []int{i, n}, "q")
						}
						if enabled && len(log) < maxLogEntries {
							log = append(log, cat+" "+msg)
							cats[cat] = true
						} else {
							lost++
						}
					}
				}
				if ctx.LogCount() != len(log) {
					c.Fatalf("after %d operations the log has %d entries, should have %d", i+1, ctx.LogCount(), len(log))
				}
				if len(log) > 0 {
					for k := 0; k < 3; k++ {
						j := r.U(0, len(log)-1)
						if k == 0 {
							j = len(log) - 1
						}
						if got := ctx.LogText(int32(j)); got != log[j] {
							c.Fatalf("log entry %d is %q, should be %q", j, got, log[j])
						}
					}
				}
			}
			for j := range log {
				if got := ctx.LogText(int32(j)); got != log[j] {
					c.Fatalf("log entry %d is %q, should be %q", j, got, log[j])
				}
			}
			c.LabelIf(len(log) == maxLogEntries, "full log")
			if len(cats) > 1 && (lost > 0 || resets > 0) {
				c.Nontrivial(nOps, log)
				c.Sample("%d operations, %d entries left, %d messages not kept, %d resets", nOps, len(log), lost, resets)
			}
		})

	hx.Run(t, "timers", "a timer ran several times, and another did not or was reset", 3000, 40000, func(c *hx.Case) {
		r := gen.New(c.T)
		state := r.Bool("state")
		ctx := recast.NewBuildContext(state)
		enabled := state
		const n = recast.TimerMergePolyMeshDetail + 1
		// sum of the intervals lies between lo and hi
		type timer struct {
			running          bool
			before, after    time.Time // of the start
			lo, hi           time.Duration
			runs             int
			vague            bool // started or stopped while disabled
			stoppedNoStarted bool
		}
		var ts [n]timer
		some := []recast.TimerLabel{recast.TimerTotal, recast.TimerTemp, recast.TimerLabel(r.U(0, n-1)), n - 1}
		most, resets := 0, 0
		for i, nOps := 0, r.Int("ops", 1, 60); i < nOps; i++ {
			l := some[r.U(0, len(some)-1)]
			if r.P(0.1) {
				l = recast.TimerLabel(r.U(0, n-1))
			}
			tm := &ts[l]
			switch op := r.U(0, 19); {
			case op == 0:
				enabled = r.P(0.8)
				ctx.EnableTimer(enabled)
			case op == 1:
				if enabled {
					ctx.ResetTimers()
					resets++
					for k := range ts {
						ts[k].lo, ts[k].hi, ts[k].runs = 0, 0, 0
						// whether a running timer goes on is not specified
						ts[k].vague = ts[k].running
					}
				}
			case op == 2:
				ctx.EnableLog(r.P(0.5))
				ctx.Progressf("message")
				ctx.ResetLog()
			case op < 10:
				b := time.Now()
				ctx.StartTimer(l)
				a := time.Now()
				if enabled {
					if tm.running {
						tm.vague = true // restarted: from which start it counts is not specified
					}
					tm.running, tm.before, tm.after = true, b, a
				} else {
					tm.vague = tm.vague || tm.running
				}
			case op < 17:
				b := time.Now()
				ctx.StopTimer(l)
				a := time.Now()
				if enabled {
					if tm.running {
						tm.lo += b.Sub(tm.after)
						tm.hi += a.Sub(tm.before)
						tm.runs++
						tm.running = false
						if tm.runs > most {
							most = tm.runs
						}
					}
				} else {
					tm.vague = tm.vague || tm.running
				}
			default:
				if r.P(0.2) {
					time.Sleep(time.Duration(r.U(1, 2000)) * time.Microsecond)
				}
			}
			for k := range ts {
				got := ctx.AccumulatedTime(recast.TimerLabel(k))
				tm := &ts[k]
				switch {
				case !enabled:
					if got != -1 {
						c.Fatalf("timers are disabled, AccumulatedTime(%d) is %v", k, got)
					}
				case tm.vague:
					if got > time.Hour {
						c.Fatalf("AccumulatedTime(%d) is %v", k, got)
					}
				case tm.runs == 0 && tm.running:
					if got != -1 && got != 0 {
						c.Fatalf("timer %d was not stopped yet, AccumulatedTime is %v", k, got)
					}
				case tm.runs == 0:
					if got != -1 {
						c.Fatalf("timer %d was never started, AccumulatedTime is %v", k, got)
					}
				default:
					if got < tm.lo || got > tm.hi {
						c.Fatalf("timer %d ran %d times for %v to %v, AccumulatedTime is %v", k, tm.runs, tm.lo, tm.hi, got)
					}
				}
			}
		}
		if most > 1 {
			c.Nontrivial(resets, most, ts[some[0]].runs, ts[some[1]].runs, ts[some[2]].runs, ts[some[3]].runs, ts[0].hi)
			c.Sample("%d resets, timer 0 ran %d times since the last one (%v)", resets, ts[0].runs, ts[0].hi)
		}
	})

	hx.Run(t, "steps", "the timers of all build steps were checked", 600, 6000, func(c *hx.Case) {
		r := gen.New(c.T)
		ctx := recast.NewBuildContext(true)
		steps := map[recast.TimerLabel]bool{}
		timed := func(l recast.TimerLabel, f func()) {
			if got := ctx.AccumulatedTime(l); got != -1 {
				c.Fatalf("timer %d before its step: %v", l, got)
			}
			b := time.Now()
			f()
			d := time.Since(b)
			if got := ctx.AccumulatedTime(l); got < 0 || got > d {
				c.Fatalf("timer %d after a step of %v: %v", l, d, got)
			}
			steps[l] = true
			for k := recast.TimerLabel(0); k <= recast.TimerMergePolyMeshDetail; k++ {
				if (ctx.AccumulatedTime(k) == -1) != !steps[k] && !sub[k] {
					c.Fatalf("timer %d is %v, its step ran: %v", k, ctx.AccumulatedTime(k), steps[k])
				}
			}
		}
		verts := []float32{0, 0, 0, r.F(5, 20), r.F(0, 2), 0, 0, 0, r.F(5, 20)}
		bmin, bmax := []float32{0, 0, 0}, []float32{20, 3, 20}
		hf := recast.NewHeightfield(40, 40, bmin, bmax, 0.5, 0.2)
		timed(recast.TimerRasterizeTriangles, func() {
			recast.RasterizeTriangles(ctx, verts, 3, []int32{0, 2, 1}, []uint8{walkable}, 1, hf, 4)
		})
		timed(recast.TimerFilterLowObstacles, func() { recast.FilterLowHangingWalkableObstacles(ctx, 4, hf) })
		timed(recast.TimerFilterBorder, func() { recast.FilterLedgeSpans(ctx, 10, 4, hf) })
		timed(recast.TimerFilterWalkable, func() { recast.FilterWalkableLowHeightSpans(ctx, 10, hf) })
		chf := &recast.CompactHeightfield{}
		timed(recast.TimerBuildCompactHeightfield, func() { recast.BuildCompactHeightfield(ctx, 10, 4, hf, chf) })
		timed(recast.TimerErodeArea, func() { recast.ErodeWalkableArea(ctx, 1, chf) })
		timed(recast.TimerMarkConvexPolyArea, func() { recast.MarkConvexPolyArea(ctx, verts, 3, 0, 1, 5, chf) })
		timed(recast.TimerBuildRegions, func() { recast.BuildRegionsMonotone(ctx, chf, 0, 4, 20) })
		cset := &recast.ContourSet{}
		timed(recast.TimerBuildContours, func() { recast.BuildContours(ctx, chf, 1.3, 12, cset, recast.ContourTessWallEdges) })
		var pm *recast.PolyMesh
		timed(recast.TimerBuildPolymesh, func() { pm, _ = recast.BuildPolyMesh(ctx, cset, 6) })
		timed(recast.TimerBuildPolyMeshDetail, func() { recast.BuildPolyMeshDetail(ctx, pm, chf, 3, 1) })
		ctx.ResetLog()
		recast.LogBuildTimes(ctx, time.Second)
		for i := 0; i < ctx.LogCount(); i++ {
			l := ctx.LogText(int32(i))
			if strings.Contains(l, "Median") || strings.Contains(l, "Watershed") || strings.Contains(l, "Merge Polymeshes") {
				c.Fatalf("the build log reports a step that did not run: %q", l)
			}
		}
		c.Nontrivial(verts)
		c.Sample("triangle %v", verts)
	})
}

// Timers of parts of a step.
var sub = map[recast.TimerLabel]bool{
	recast.TimerBuildRegionsFilter:    true,
	recast.TimerBuildContoursTrace:    true,
	recast.TimerBuildContoursSimplify: true,
}
