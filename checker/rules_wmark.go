package main

import "fmt"

func init() {
	rule("watermark", "C10 C11",
		"the source's watermark is its largest event time minus the allowed lateness and one tick: it never decreases and stays below that time",
		func(c *Check) {
			const w = "workers/wmark.Watermarker"
			isMax, isLate := fieldIs(w+".maxTimestamp"), fieldIs(w+".allowedLateness")
			g := c.full("(*" + w + ").AdvanceTime")
			st := store(w + ".maxTimestamp")
			q := c.q("Watermarker.AdvanceTime", g)
			for _, cs := range [][2]int64{{10, 12}, {10, 10}, {10, 7}} {
				asg := roles(role{isMax, cs[0]}, role{isParam("1"), cs[1]})
				n := q.named(fmt.Sprintf("Watermarker.AdvanceTime/max %d, event %d", cs[0], cs[1])).when(asg)
				if cs[1] > cs[0] {
					n.mustPass(st, exit, "the watermark doesn't follow the event time")
				}
				if len(n.sites(st)) > 0 {
					n.all(st, func(x X) bool {
						v, ok := x.val(x.stored(), asg)
						return ok && v == max(cs[0], cs[1]) || !ok && cs[1] > cs[0]
					}, "the largest event time isn't kept")
				}
			}
			h := c.full("(*" + w + ").CurrentWatermark")
			r := c.q("Watermarker.CurrentWatermark", h)
			for _, cs := range [][2]int64{{1000, 0}, {1000, 10}} {
				asg := roles(role{isMax, cs[0]}, role{isLate, cs[1]})
				r.when(asg).all(exit, func(x X) bool {
					v, ok := x.val(x.result(0), asg)
					if !ok {
						return false
					}
					return v < cs[0] && v >= cs[0]-cs[1]-1000 && v <= cs[0]-cs[1]-1
				}, fmt.Sprintf("with largest event time %d and lateness %d", cs[0], cs[1]))
			}
		})

	rule("time.bytes", "C06 C10 C17",
		"times are written and read as the same big-endian nanoseconds",
		func(c *Check) {
			g := c.full("util/binu.PutTimeBytes")
			q := c.q("PutTimeBytes", g)
			put := call("(encoding/binary.bigEndian).PutUint64")
			nano := func(t *Term) bool { return t.isCall("(time.Time).UnixNano") && t.A[0].String() == "p1" }
			q.need(put, "big-endian write: the order of timers is the order of their bytes")
			q.mustPass(put, exit, "the time isn't written")
			q.all(put, func(x X) bool {
				v, ok := x.val(x.arg(2), truth(nano, 12345))
				return ok && v == 12345
			}, "something other than the time's nanoseconds is written")
			into := func(x X) bool { return unslice(x.argT(0)).String() == "p0" }
			q.mustPass(or(and(put, func(x X) bool { return unslice(x.argT(1)).String() == "p0" }), and(call("builtin.copy"), into)), exit, "the time isn't written into the given slice")
			q.never(and(call("builtin.copy"), into, func(x X) bool {
				w := x.argT(0)
				return w.Op == "slice" && !in(w.A[1].String(), []string{"", "0", "_", "nil"})
			}), "the time isn't written at the start of the given slice")
			eight := truth(func(t *Term) bool { return t.isCall("builtin.copy") }, 8)
			q.all(exit, func(x X) bool { v, ok := x.val(x.result(0), eight); return !ok || v == 8 }, "the length isn't 8")
			h := c.full("util/binu.TimeFromBytes")
			r := c.q("TimeFromBytes", h)
			get := call("(encoding/binary.bigEndian).Uint64")
			r.need(get, "big-endian read")
			unix := call("time.Unix")
			r.need(unix, "conversion of nanoseconds")
			read := func(t *Term) bool {
				return t.isCall("(encoding/binary.bigEndian).Uint64") && unslice(t.A[1]).String() == "p0"
			}
			r.all(unix, func(x X) bool {
				a := truth(read, 12000000345)
				s, ok1 := x.val(x.arg(0), a)
				n, ok2 := x.val(x.arg(1), a)
				return ok1 && ok2 && s*1000000000+n == 12000000345
			}, "the time read isn't the one written")
		})
}
