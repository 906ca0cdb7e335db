package main

import (
	"bytes"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P14"] = &Scenario{Gen: genP14, Setup: setupP14}
}

func genP14(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	P := map[string]int64{"wait": int64(r.Intn(3)) * 30, "linger": pick64(r, 0, 50, 300)}
	streamKnobs(r, P)
	P["frames"] = 10 + int64(r.Intn(60))
	P["body"] = pick64(r, 10, 60, 100, 120, 400, 3000, 30000, 70000)
	P["edge"] = int64(r.Intn(2))
	P["fms"] = pick64(r, 5, 20, 33)
	P["cs"] = pick64(r, 4096, 65536)
	P["end"] = pick64(r, 0, 0, 1, 2)
	p.Ops = append(p.Ops, Op{K: "pub", I: 1, A: "live", N: "s", P: P})
	ms := P["wait"] + streamMs(P)
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		o := Op{K: "ws", I: int64(10 + i), A: "live", N: "s", T: int64(25000 + r.Intn(int(ms)+1)*700), P: map[string]int64{}}
		o.P["pings"] = int64(r.Intn(40))
		o.P["pgap"] = pick64(r, 0, 500, 2000, 20000)
		o.P["big"] = int64(r.Intn(2))
		if r.Bool(0.3) {
			o.P["wsclose"] = 1 + int64(r.Intn(int(ms)))
		}
		if r.Bool(0.25) {
			o.P["frag"] = 1
		}
		if r.Bool(0.15) {
			o.P["evil"] = 1 + int64(r.Intn(8))
		}
		if !p.NoFault {
			switch r.Pick(6, 1, 1, 1, 1) {
			case 1:
				o.P["rate"] = 1 + int64(r.Intn(60))
				o.P["vwin"] = pick64(r, 512, 2048, 8192)
			case 2:
				o.P["stall"] = 1 + int64(r.Intn(20000))
				o.P["stallms"] = int64(10 + r.Intn(1500))
				o.P["vwin"] = pick64(r, 512, 2048, 8192)
			case 3:
				o.P["rst"] = 1 + int64(r.Intn(30000))
			case 4:
				o.P["quit"] = 1 + int64(r.Intn(int(ms)))*1000
				o.P["qrst"] = int64(r.Intn(2))
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Bool(0.3) {
		p.Ops = append(p.Ops, Op{K: liveProtos[r.Intn(2)], I: 20, A: "live", N: "s", T: 25000, P: map[string]int64{}})
	}
}

func setupP14(w *World) {
	w.startServer(ServerCfg{})
	w.std()
	w.finish(700 * time.Millisecond)
	w.done = append(w.done, func() {
		w.checkLive(true)
		for _, v := range w.viewers {
			w.checkWS(v)
		}
	})
}

// checkWS evaluates the control frames of one WebSocket session.
func (w *World) checkWS(v *Viewer) {
	s := v.WS
	if s == nil {
		return
	}
	var pongs []wsCtl
	for _, c := range s.Ctl {
		switch c.Op {
		case 10:
			pongs = append(pongs, c)
		case 9:
			w.ok("server-ping")
		}
	}
	for i, c := range pongs {
		if i >= len(s.PingsTx) {
			if s.Noise {
				break
			}
			w.fail("pong-extra", "%v received pong %d (%s) but sent only %d pings", v, i, hexs(c.P, 20), len(s.PingsTx))
			return
		}
		if !bytes.Equal(c.P, s.PingsTx[i]) {
			w.fail("pong-wrong", "%v: pong %d carries %s, ping %d carried %s", v, i, hexs(c.P, 20), i, hexs(s.PingsTx[i], 20))
			return
		}
		w.ok("pongs")
	}
	if w.plan.stalls() || v.Harmed && !v.wsBusy() {
		return
	}
	D := w.procBound()
	if w.plan.Net.LatMax > 0 {
		// a window per round trip is all the bandwidth there is: a pong queues
		// behind the media already written
		D += 4 * time.Second * time.Duration(w.plan.Net.LatMax/time.Millisecond) * 4096 / time.Duration(w.plan.Net.Window)
	}
	end := v.EndAt
	if s.SrvCloseAt > 0 && s.SrvCloseAt < end {
		end = s.SrvCloseAt
	}
	for i, at := range s.PingAt {
		if i < len(pongs) {
			if !v.Harmed && pongs[i].At > at+D {
				w.fail("pong-late", "%v: ping %d sent at %v was answered at %v", v, i, at, pongs[i].At)
				return
			}
			continue
		}
		if !v.Harmed && at+D < end && (s.KillAt == 0 || at+D < s.KillAt) {
			w.fail("pong-missing", "%v: ping %d sent at %v was not answered by %v", v, i, at, end)
			return
		}
	}
	// a close frame ends delivery
	if s.ClosedAt > 0 && v.Op.p("rate", 0) == 0 && v.Op.p("stall", 0) == 0 && v.Op.p("rst", 0) == 0 && v.Op.p("vwin", 0) == 0 {
		if v.EndAt == 0 || v.EndAt > s.ClosedAt+D {
			w.fail("close-ignored", "%v sent a close frame at %v and delivery ended at %v (%s)", v, s.ClosedAt, v.EndAt, v.EndWhy)
		}
		w.ok("closes")
	}
}

// wsBusy says whether the session was harmed only by what it sent.
func (v *Viewer) wsBusy() bool {
	o := v.Op
	return o.p("rate", 0) == 0 && o.p("stall", 0) == 0 && o.p("rst", 0) == 0 && o.p("quit", 0) == 0 && o.p("vwin", 0) == 0
}
