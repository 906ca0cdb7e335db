package main

import (
	"bytes"
	"fmt"
	"net/url"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/simrt"
)

func init() {
	scenarios["P15"] = &Scenario{Gen: genP15, Setup: setupP15}
}

// names a publisher may choose. HLS and DASH can be addressed for the
// plain and the odd ones; the hostile ones only try to leave the
// directory.
var (
	plainNames   = []string{"s", "s-1", "s-init", "cam_01", "index.m3u8", "S.ts"}
	oddNames     = []string{"a b", "50%", "x?y", "a#b", "\u00fc\u4e2d", "%2e%2e%2fx", "s&<\">'", "$Number$", "a:b", "a+b", "-", "~", "$", "a,b;c=d", "..x", "a%20b", "{}|^`[]"}
	hostileNames = []string{"..", ".", "../s", "../../etc/x", "/abs", "a/b", "../live/s", "./s", "s/../../x", "../../srv/hls/s", "a\nb", "a\x00b", "..\\x", "a\\b", "../" + strings.Repeat("d", 40), "../secret", "/etc/passwd", "\xff\xfe"}
)

// canaries are files that are none of the server's business.
var canaries = []string{
	"/etc/passwd", "/work/secret.ts", "/work/secret-0.ts", "/work/secret-0.m4s", "/work/secret-init.mp4", "/work/config.ts",
	"/work/data/secret.ts", "/work/data/ghost-0.ts", "/work/data/ghost-0.m4s", "/work/data/ghost-init.mp4",
	"/work/data/live/secret.ts", "/work/data/live/ghost-0.ts", "/work/data/live/ghost-0.m4s", "/work/data/live/ghost-init.mp4",
	"/work/data/tv/secret.ts", "/work/data/tv/ghost-0.ts", "/srv/secret.ts", "/srv/secret-0.ts", "/srv/ghost-0.m4s",
	"/srv/hls/secret.ts", "/srv/hls/ghost-0.ts", "/srv/hls/ghost-0.m4s", "/srv/hls/ghost-init.mp4", "/srv/tv/ghost-0.ts",
	"/work/out/secret.ts", "/work/out/hls/ghost-0.ts", "/secret.ts", "/abs/secret.ts",
	"/work/data/a/ghost-0.ts", "/work/data/live/a/ghost-0.ts", "/srv/hls/a/ghost-0.ts",
}

var p15dirs = []map[string]string{
	nil,
	{"live": "/srv/hls"},
	{"live": "/srv/hls/", "tv": "/srv/tv"},
	{"live": "out/hls"},
	{"live": "/srv/hls", "tv": "/srv/hls/tv"},
	{"tv": "/srv/tv/deep/er"},
}

func genP15(r *simrt.Rand, p *Plan) {
	randNet(r, p)
	if p.Net.Window < 16384 {
		p.Net.Window = 16384
	}
	p.K["dirs"] = int64(r.Intn(len(p15dirs)))
	p.K["dash"] = int64(r.Pick(1, 2))
	if r.Bool(0.2) {
		p.K["delay"] = 1
	}
	stream := func(main bool) map[string]int64 {
		P := map[string]int64{}
		segKnobs(r, P)
		delete(P, "hchg")
		P["body"] = pick64(r, 60, 200, 600)
		P["frames"] = (3000 + int64(r.Intn(9000))) / P["fms"]
		P["linger"] = 100
		return P
	}
	name := func() (string, int) {
		switch r.Pick(4, 3, 2, 1) {
		case 0:
			return plainNames[r.Intn(len(plainNames))], 0
		case 1:
			return oddNames[r.Intn(len(oddNames))], 1
		case 2:
			return hostileNames[r.Intn(len(hostileNames))], 2
		}
		return strings.Repeat("n", []int{100, 200, 240, 248, 255, 300}[r.Intn(6)]), 3
	}
	n := 1 + r.Pick(3, 4, 2)
	seen := map[string]bool{}
	var main string
	mainApp := ""
	for i := 0; i < n; i++ {
		app := []string{"live", "tv"}[r.Pick(3, 1)]
		nm, class := name()
		if i > 0 && r.Bool(0.3) && mainApp != "" { // the same name elsewhere
			nm, class = main, 0
			app = map[string]string{"live": "tv", "tv": "live"}[mainApp]
		}
		if i > 0 && r.Bool(0.2) {
			nm, class = []string{"s", "s-1", "s-0"}[r.Intn(3)], 0
		}
		if seen[app+"/"+nm] {
			continue
		}
		seen[app+"/"+nm] = true
		if i == 0 {
			main, mainApp = nm, app
			if class >= 2 {
				mainApp = ""
			}
		}
		P := stream(i == 0)
		at := int64(r.Intn(2000)) * 1000
		p.Ops = append(p.Ops, Op{K: "pub", I: int64(1 + i), A: app, N: nm, T: at, P: P})
		protos := []string{"rtmp", "flv", "ws"}
		if class == 0 && strings.Trim(nm, "abcdefghijklmnopqrstuvwxyz0123456789._-ST") == "" {
			protos = append(protos, "rtsp")
		}
		if strings.ContainsAny(nm, "/\x00\n") || nm == "." || nm == ".." {
			protos = protos[:1]
		}
		for k := 0; k < r.Intn(3); k++ {
			p.Ops = append(p.Ops, Op{K: protos[r.Intn(len(protos))], I: int64(20 + 5*i + k), A: app, N: nm, T: at + 100000 + int64(r.Intn(5000))*1000, P: map[string]int64{}})
		}
		if class < 2 || class == 3 && len(nm) <= 200 {
			if r.Bool(0.8) {
				p.Ops = append(p.Ops, Op{K: "hls", I: int64(50 + i), A: app, N: nm, T: at + int64(r.Intn(3000))*1000, P: map[string]int64{"every": pick64(r, 200, 500, 1000)}})
			}
			if p.K["dash"] != 0 && r.Bool(0.6) {
				p.Ops = append(p.Ops, Op{K: "dash", I: int64(60 + i), A: app, N: nm, T: at + int64(r.Intn(3000))*1000, P: map[string]int64{"every": pick64(r, 200, 500, 1000)}})
			}
		}
	}
	if r.Bool(0.7) {
		p.Ops = append(p.Ops, Op{K: "probe", I: 90, T: int64(500+r.Intn(3000)) * 1000, P: map[string]int64{"n": 10 + int64(r.Intn(60))}})
	}
	if p.NoFault || r.Bool(0.2) {
		return
	}
	for i, k := 0, 1+r.Intn(3); i < k; i++ {
		P := map[string]int64{
			"len": pick64(r, 1, 50, 400, 2500, 6000, 60000),
			"ops": pick64(r, 1, 2, 4, 8, 16, 32, 63, 63, 3, 19),
			"pct": pick64(r, 100, 100, 30, 2),
			"err": int64(r.Intn(2)),
			"of":  int64(r.Pick(3, 1, 1, 1)),
			"max": pick64(r, 1, 1, 3, 1<<30),
		}
		if r.Bool(0.5) {
			P["short"] = 1
		}
		if r.Bool(0.2) {
			P["slow"] = pick64(r, 5, 50, 400, 400, 5000)
			if P["slow"] > 400 {
				P["max"], P["len"] = 1+int64(r.Intn(4)), max(P["len"], 2500)
			}
		}
		p.Ops = append(p.Ops, Op{K: "disk", I: int64(100 + i), T: int64(r.Intn(9000)) * 1000, P: P})
	}
	if r.Bool(0.2) {
		p.K["limit"] = pick64(r, 1, 1000, 20000, 100000)
		p.K["limit0"] = int64(r.Intn(5000))
		p.K["limit1"] = p.K["limit0"] + pick64(r, 500, 3000, 60000)
	}
}

// diskLag is for how long a slow disk may hold up the end of a session: its
// name is free once its files are gone.
func (w *World) diskLag() (d time.Duration) {
	for _, o := range w.plan.Ops {
		if o.K == "disk" && o.p("slow", 0) > 0 {
			d = max(d, time.Duration(o.p("len", 1)+o.p("slow", 0))*time.Millisecond)
		}
	}
	return
}

// diskWatch follows the server's file operations.
type diskWatch struct {
	w      *World
	roots  map[string]string // app -> directory
	ts, mp map[*Session][]time.Duration
	kept   map[string]bool // files whose removal failed
	slow   bool
	badEnd map[string]bool // files whose last close failed
	seen   int
}

func (d *diskWatch) root(app string) string { return d.roots[app] }

// within says whether p lies in directory dir.
func within(p, dir string) bool { return strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/") }

// owners are the streams a path may be a file of.
func (d *diskWatch) owners(p string) (l []*Session) {
	for _, s := range d.w.pubs {
		nm := s.Nm
		if i := strings.LastIndexByte(nm, '/'); i >= 0 {
			nm = nm[i+1:]
		}
		rest, ok := strings.CutPrefix(path.Base(p), nm+"-")
		if !ok || !within(p, d.root(s.App)) {
			continue
		}
		if i := strings.IndexByte(rest, '.'); i > 0 && (rest[:i] == "init" || strings.Trim(rest[:i], "0123456789") == "") {
			l = append(l, s)
		}
	}
	return
}

// failed records that an operation was made to fail.
func (d *diskWatch) failed(op, p string, now time.Duration) {
	if op == "remove" {
		return
	}
	os := d.owners(p)
	if len(os) == 0 { // a directory
		os = d.w.pubs
	}
	for _, s := range os {
		if !strings.HasSuffix(p, ".ts") || len(d.owners(p)) == 0 {
			d.mp[s] = append(d.mp[s], now)
		}
		if strings.HasSuffix(p, ".ts") || len(d.owners(p)) == 0 {
			d.ts[s] = append(d.ts[s], now)
		}
	}
}

// scan looks at the operations recorded since the last scan.
func (d *diskWatch) scan() {
	w := d.w
	for ; d.seen < len(w.srv.FS.Ops); d.seen++ {
		o := &w.srv.FS.Ops[d.seen]
		switch {
		case o.Op == "mkdir":
			good := false
			for _, dir := range d.roots {
				if o.Path == strings.TrimSuffix(dir, "/") || within(o.Path, dir) || within(dir, o.Path) {
					good = true
				}
			}
			if !good {
				w.fail("outside", "the server made directory %q, configured are %v", o.Path, d.roots)
				return
			}
			continue
		case o.Err == syscall.ENOENT || o.Err == syscall.ENOTDIR || o.Err == syscall.ENAMETOOLONG:
			if o.Op == "remove" {
				good := false
				for _, dir := range d.roots {
					good = good || within(o.Path, dir)
				}
				if !good {
					w.fail("outside", "the server tried to remove %q, configured are %v", o.Path, d.roots)
					return
				}
			}
			if o.Op != "create" {
				continue
			}
		}
		if len(d.owners(o.Path)) == 0 {
			w.fail("outside", "%s of %q: that is no file of a published stream in its directory (%v)", o.Op, o.Path, d.roots)
			return
		}
		w.ok("file-ops")
		if o.Err == syscall.ENOSPC {
			d.failed(o.Op, o.Path, o.At)
		}
		switch o.Op {
		case "create", "remove":
			if o.Op == "remove" && o.Err != nil {
				d.kept[o.Path] = true
			}
			if o.Err == nil {
				delete(d.badEnd, o.Path)
				delete(d.kept, o.Path)
			}
		case "close":
			if o.Err != nil {
				d.badEnd[o.Path] = true
			}
		case "rename":
			delete(d.badEnd, o.Path)
		}
	}
}

func setupP15(w *World) {
	dirs := p15dirs[w.plan.k("dirs", 0)]
	w.startServer(ServerCfg{Hls: true, Dash: w.plan.k("dash", 0) != 0, Delay: w.plan.k("delay", 0) != 0, Rtsp: true, Dirs: dirs})
	d := &diskWatch{w: w, roots: map[string]string{}, ts: map[*Session][]time.Duration{}, mp: map[*Session][]time.Duration{}, kept: map[string]bool{}, badEnd: map[string]bool{}}
	for _, a := range []string{"live", "tv"} {
		d.roots[a] = "/work/data"
		if x := dirs[a]; x != "" {
			if !strings.HasPrefix(x, "/") {
				x = "/work/" + x
			}
			d.roots[a] = path.Clean(x)
		}
	}
	fs := w.srv.FS
	for _, c := range canaries {
		fs.Put(c, []byte("CANARY "+c))
	}
	fs.KeepOps = true
	w.std()
	d.arm()
	if l := w.plan.k("limit", 0); l > 0 {
		w.s.After(time.Duration(w.plan.k("limit0", 0))*time.Millisecond, func() { fs.Limit = l })
		w.s.After(time.Duration(w.plan.k("limit1", 0))*time.Millisecond, func() { fs.Limit = 0 })
	}
	for i := range w.plan.Ops {
		if o := &w.plan.Ops[i]; o.K == "probe" {
			d.probe(o)
		}
	}
	w.onHLS = func(h *hlsObs, p *hlsPoll) {
		d.scan()
		for _, s := range p.M.Segs {
			nm := s.Name
			if u, err := url.PathUnescape(nm); err == nil {
				nm = u
			}
			for f := range d.badEnd {
				if dir := path.Dir(f); path.Base(f) == nm && (dir == d.root(h.App) || dir == d.root(h.App)+"/"+h.App) {
					w.fail("hls-incomplete", "%s/%s lists %s although closing the file had failed", h.App, h.Nm, s.Name)
				}
			}
		}
	}
	B := w.procBound() + 500*time.Millisecond
	if w.plan.stalls() {
		B += 120 * time.Second
	}
	if d.slow {
		B += 60 * time.Second
	}
	w.s.GoOn(w.s.Node("director", "10.9.9.9", true), "director", func() {
		w.waitUntil(300*time.Second, func() bool {
			for _, p := range w.pubs {
				if !p.Ended {
					return false
				}
			}
			return w.hold == 0
		})
		w.sleep(300 * time.Millisecond)
		var l []string
		ok := w.waitUntil(B, func() bool {
			d.scan()
			l = nil
			for _, f := range fs.List() {
				if !d.kept[f] && !isCanary(f) {
					l = append(l, f)
				}
			}
			return len(l) == 0 || len(w.viols) > 0
		})
		if !ok && len(w.s.Crashes) == 0 {
			w.fail("leftover", "%v after every stream had ended these files remain: %q", B, l)
		}
		w.endRun()
	})
	w.done = append(w.done, func() {
		d.scan()
		for _, c := range canaries {
			if b, ok := fs.Get(c); !ok || !bytes.Equal(b, []byte("CANARY "+c)) {
				w.fail("outside", "file %s, which is none of the server's, was changed or removed", c)
			}
		}
		if len(w.viols) > 0 {
			return
		}
		w.checkLive(true)
		for _, k := range w.hlsKeys {
			h := w.hls[k]
			if sess := w.onlySession(h.App, h.Nm); sess != nil && len(w.viols) == 0 {
				w.checkHLS(h, sess, d.opts(sess, d.ts[sess], w.plan.k("delay", 0) == 0))
			}
		}
		for _, h := range w.dash {
			if sess := w.onlySession(h.App, h.Nm); sess != nil && len(w.viols) == 0 {
				w.checkDASH(h, sess, d.opts(sess, d.mp[sess], true))
			}
		}
	})
}

func isCanary(f string) bool {
	for _, c := range canaries {
		if c == f {
			return true
		}
	}
	return false
}

func (d *diskWatch) opts(sess *Session, fs []time.Duration, first bool) hlsOpts {
	w := d.w
	sort.Slice(fs, func(i, j int) bool { return fs[i] < fs[j] })
	lag := time.Duration(0)
	if d.slow {
		lag = time.Minute
	}
	return hlsOpts{Lag: lag, Strict: !sess.SP.Burst && !w.plan.stalls() && !d.slow, First: first, D: w.procBound(), Faulty: true, Faults: fs}
}

// arm installs the planned disk faults.
func (d *diskWatch) arm() {
	w := d.w
	type win struct {
		o        *Op
		from, to time.Duration
		left     int64
		r        *simrt.Rand
	}
	var wins []*win
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		if o.K != "disk" {
			continue
		}
		x := &win{o: o, from: time.Duration(o.T) * time.Microsecond, left: o.p("max", 1), r: w.rng(61, uint64(o.I))}
		x.to = x.from + time.Duration(o.p("len", 1))*time.Millisecond
		if o.p("slow", 0) > 0 {
			d.slow = true
		}
		wins = append(wins, x)
	}
	if len(wins) == 0 {
		return
	}
	bit := map[string]int64{"create": 1, "write": 2, "close": 4, "rename": 8, "mkdir": 16, "remove": 32}
	w.srv.FS.Fault = func(op, p string, size int) (int, error) {
		now := w.now()
		for _, x := range wins {
			if now < x.from || now >= x.to || x.left <= 0 || bit[op]&x.o.p("ops", 0) == 0 || isCanary(p) {
				continue
			}
			switch x.o.p("of", 0) { // whose files
			case 1:
				if !strings.HasSuffix(p, ".ts") {
					continue
				}
			case 2:
				if strings.HasSuffix(p, ".ts") {
					continue
				}
			case 3: // the first publisher's only
				mine := false
				for _, s := range d.owners(p) {
					mine = mine || s.ID == 1
				}
				if !mine {
					continue
				}
			}
			if ms := x.o.p("slow", 0); ms > 0 {
				if op == "write" && x.r.Intn(200) != 0 {
					continue
				}
				if w.s.Fault("disk_slow", fmt.Sprintf("%d.%s", x.o.I, op)) {
					if ms > 400 { // it hangs: the segmenter may have to skip
						x.left--
						d.failed("hang", p, w.now())
					}
					simrt.Sleep(time.Duration(1+x.r.Intn(int(ms))) * time.Millisecond)
					if ms > 400 {
						d.failed("hang", p, w.now())
					}
				}
				continue
			}
			if int64(x.r.Intn(100)) >= x.o.p("pct", 100) {
				continue
			}
			kind, err := "disk_eio", error(syscall.EIO)
			if x.o.p("err", 0) != 0 && op != "remove" && op != "close" {
				kind, err = "disk_full", syscall.ENOSPC
			}
			n := 0
			if op == "write" && x.o.p("short", 0) != 0 && size > 1 {
				kind = "disk_short"
				n = x.r.Intn(size)
			}
			if !w.s.Fault(kind, fmt.Sprintf("%d.%s", x.o.I, op)) {
				continue
			}
			x.left--
			w.logf("disk: %s %q fails: %v after %d of %d bytes", op, p, err, n, size)
			d.failed(op, p, w.now())
			return n, err
		}
		return size, nil
	}
}

// probe asks for what nobody may have.
func (d *diskWatch) probe(o *Op) {
	w := d.w
	r := w.rng(62, uint64(o.I))
	node := w.client(o.I)
	w.actor(node, "probe", o.T, func() {
		for i := int64(0); i < o.p("n", 20) && !w.stop && len(w.viols) == 0; i++ {
			w.sleep(time.Duration(20+r.Intn(300)) * time.Millisecond)
			var s *Session
			if len(w.pubs) > 0 {
				s = w.pubs[r.Intn(len(w.pubs))]
			}
			app, nm := "live", "s"
			if s != nil {
				app, nm = s.App, s.Nm
			}
			room := url.PathEscape(nm)
			if r.Bool(0.3) {
				room = nm
			}
			other := "ghost"
			if len(w.pubs) > 1 && r.Bool(0.5) {
				if q := w.pubs[r.Intn(len(w.pubs))]; q.Nm != nm {
					other = url.PathEscape(q.Nm)
				}
			}
			suf := []string{"-0.ts", "-1.ts", "-init.mp4", "-0.m4s", "-1.m4s"}[r.Intn(5)]
			up := []string{"../", "..%2f", "%2e%2e/", "%2e%2e%2f", "..%252f", "%252e%252e%252f", "..\\", "..%5c", "....//", "./../", "%2f", "//", "%2e/%2e%2e/"}[r.Intn(13)]
			up = strings.Repeat(up, 1+r.Intn(4))
			file := []string{
				"secret.ts", "ghost" + suf, other + suf, up + "secret.ts", up + "secret" + suf, up + other + suf, up + "srv/secret.ts",
				up + "etc/passwd", "%2fsecret.ts", "/etc/passwd", "/srv/hls/secret.ts", up + "tv/ghost-0.ts", up + "live/secret.ts",
				"a/ghost-0.ts", "a%2fghost-0.ts", room + "-0.ts/" + up + "secret.ts", room + "-0.ts%00secret.ts", "secret.ts%00.ts", "?x=" + up + "secret.ts",
				"-init.mp4", ".ts", ".m4s", "..ts", room + "-..%2fsecret.ts", room + "-" + up + "secret.ts", up + "data/ghost" + suf,
			}[r.Intn(26)]
			tgt := "/" + app + "/" + room + "/" + file
			switch r.Intn(8) {
			case 0:
				tgt = "/" + up + file
			case 1:
				tgt = "/" + app + "/" + up + file
			case 2:
				tgt = "/" + app + "/" + other + "/" + file
			}
			tgt = strings.Map(func(c rune) rune {
				if c <= ' ' || c == 0x7f {
					return -1
				}
				return c
			}, tgt)
			rep, b, err := w.httpGet(node, portHLS, tgt, "", 20*time.Second)
			if err != nil || rep == nil || rep.Status != 200 && rep.Status != 206 {
				w.ok("probe-refused")
				continue
			}
			w.ok("probe-answered")
			if bytes.Contains(b, []byte("CANARY")) {
				w.fail("served-outside", "GET %s answers with %q", tgt, b)
				return
			}
			d.served(tgt, b)
		}
	})
}

// served checks that an answer holds nothing of another stream.
func (d *diskWatch) served(tgt string, b []byte) {
	w := d.w
	u, err := url.ParseRequestURI(tgt)
	if err != nil {
		return
	}
	parts := strings.Split(strings.TrimPrefix(path.Clean(u.Path), "/"), "/")
	for _, s := range w.pubs {
		if len(parts) >= 3 && s.App == parts[0] && (s.Nm == parts[1] || strings.HasPrefix(strings.Join(parts[1:], "/"), s.Nm+"/")) {
			continue
		}
		if s.State != "accepted" {
			continue
		}
		for _, t := range s.Tags {
			if (t.Kind == kKey || t.Kind == kInter) && len(t.Nals) > 0 {
				if n := t.Nals[len(t.Nals)-1]; len(n) > 24 && bytes.Contains(b, n[:24]) {
					w.fail("served-foreign", "GET %s answers with frames of %s/%q (%v)", tgt, s.App, s.Nm, t)
					return
				}
			}
		}
	}
}
