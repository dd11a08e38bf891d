// P28: the fetch tool's index lists exactly what it stored.
package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
)

func main() { mc.Main("P28", run) }

type answer struct {
	Status int    `json:"status"`
	Body   []byte `json:"body"`
	Fail   string `json:"fail"`
}

func ok(b []byte) answer { return answer{Status: 200, Body: b} }

const (
	base    = "https://example.test"
	rootURL = "https://dtc.jrc.ec.europa.eu/erca_of_doc/EC_PK.zip"
	list1   = base + "/dtc_public_key_certificates_dt.php.html"
	list2   = base + "/dtc_public_key_certificates_st.php.html"
	rootID  = 0xFD45432001FFFF01
)

// entry is an entry of the index.
type entry struct {
	CAR            string `json:"car"`
	CHR            string `json:"chr"`
	Country        string `json:"country"`
	URL            string `json:"url"`
	ExpirationDate string `json:"expirationDate"`
	Path           string `json:"path"`
}

type index struct {
	CreateTime time.Time `json:"createTime"`
	Root       *entry    `json:"root"`
	G1         []entry   `json:"g1"`
	G2         []entry   `json:"g2"`
}

// row is a row of a listing page.
type row struct {
	html string
	link string // "" if it links to no certificate
	ans  answer
	want *entry // what is listed for it; nil if nothing is
	may  bool   // it may be left out
	file []byte
}

func cells(xs ...string) string {
	s := "<tr>"
	for _, x := range xs {
		s += "<td>" + x + "</td>"
	}
	return s + "</tr>\n"
}

var (
	rsaKey  = ref.RSAOf("root")
	rootBin = append(append(ref.U64(rootID), rsaKey.Mod()...), rsaKey.Exp()...)
	dates   = []struct{ page, rfc string }{{"21/03/2031", "2031-03-21T00:00:00Z"}, {"2029-07-10", "2029-07-10T00:00:00Z"}, {"05/11/2031", "2031-11-05T00:00:00Z"}, {"unknown", ""}}
	lands   = []string{"Norway", "Austria", "Norway", "Czech Republic"}
)

func zipOf(name string, b []byte) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	f, err := w.Create("readme.txt")
	if err == nil {
		_, err = f.Write([]byte("about"))
	}
	if err == nil && name != "" {
		f, err = w.Create(name)
		if err == nil {
			_, err = f.Write(b)
		}
	}
	if err == nil {
		err = w.Close()
	}
	if err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// bad answers, the same for both generations.
var bads = []string{"404", "500", "net", "cut", "html", "empty", "short", "long"}

func bad(kind string, cert []byte) answer {
	switch kind {
	case "404":
		return answer{Status: 404, Body: cert}
	case "500":
		return answer{Status: 500, Body: cert}
	case "net":
		return answer{Fail: "net"}
	case "cut":
		return answer{Status: 200, Body: cert[:len(cert)/2], Fail: "cut"}
	case "html":
		return ok([]byte("<html><body>" + strings.Repeat("please log in ", 9)))
	case "empty":
		return ok(nil)
	case "short":
		return ok(cert[:len(cert)-1])
	case "long":
		return ok(append(bytes.Clone(cert), make([]byte, 342-len(cert))...))
	}
	panic(kind)
}

// kinds of row; i is the row's place.
func rowOf(gen int, kind string, i int) row {
	land, date := lands[i%len(lands)], dates[i%len(dates)]
	dir, tag := "g1", "DT"
	if gen == 2 {
		dir, tag = "g2", "ST"
	}
	link := fmt.Sprintf("BIN_%s/C%dG%d.bin", tag, i, gen)
	chr := uint64(0x0D44202001FFFF00 + i + 0x100*gen)
	var cert []byte
	var car uint64
	eov := date.rfc
	if gen == 1 {
		car = rootID
		t := 1924992000 + 86400*100*((i*5)%7) // in no order
		cert = ref.RSACert(rsaKey, ref.RSAContent(car, chr, t, ref.RSAOf("ca").Mod(), ref.RSAOf("ca").Exp()), car)
		eov = time.Unix(int64(t), 0).UTC().Format(time.RFC3339)
	} else {
		car = 0xFD45432001FFFF02
		cv := []int{3, 4, 0}[i%3]
		cert = ref.GoodECCert(&ref.Curves[cv], "groot", car, chr, fmt.Sprint("k", i))
	}
	e := entry{CAR: fmt.Sprint(car), CHR: fmt.Sprint(chr), Country: land, URL: base + "/" + link, ExpirationDate: eov, Path: fmt.Sprintf("%s/%d.bin", dir, chr)}
	a := func(href string) string { return `<a href="` + href + `">Download</a>` }
	r := row{html: cells(land, "MSCA "+fmt.Sprint(i)+" certificate", date.page, a(link)), link: link, ans: ok(cert), want: &e, file: cert}
	switch kind {
	case "good":
	case "head":
		return row{html: "<tr><th>Country</th><th>Certificate</th><th>Expiry</th><th>Link</th></tr>"}
	case "nolink":
		return row{html: cells(land, "MSCA", date.page, "none")}
	case "otherlink":
		return row{html: cells(land, "MSCA", date.page, `<a href="about.html">About</a>`)}
	case "short row":
		return row{html: cells(land, a(link))}
	case "title": // found by its title
		r.link = fmt.Sprintf("get.php?file=iot_doc/T%d%d", i, gen)
		r.html = cells(land, "<b>MSCA</b> certificate", date.page, `<span><a class="x" href="`+r.link+`" title="Download certificate file">here</a></span>`)
		r.want.URL = base + "/" + r.link
	case "spaces":
		r.html = cells("\n  "+land+"\t", " ", "<i> "+date.page+"\n</i>", a(link))
	case "unknown key": // cannot be opened with the root certificate
		if gen == 1 {
			k := ref.RSAOf("other")
			r.file = ref.RSACert(k, ref.RSAContent(car, chr, 1924992000, k.Mod(), k.Exp()), car)
			r.want.CHR, r.want.ExpirationDate = "", date.rfc
			r.want.Path = "g1/" + filepath.Base(link) + ".bin"
			r.may = true
			r.ans = ok(r.file)
		}
	case "escape": // a name that points elsewhere
		r.link = fmt.Sprintf("BIN_%s?f=../../escaped%d%d", tag, i, gen)
		r.html = cells(land, "x", date.page, a(r.link))
		r.want.URL = base + "/" + r.link
		if gen == 1 {
			k := ref.RSAOf("other")
			r.file = ref.RSACert(k, ref.RSAContent(car, chr, 1924992000, k.Mod(), k.Exp()), car)
			r.want.CHR, r.want.ExpirationDate = "", date.rfc
		} else {
			// No holder: the body ends early.
			body := ref.NewECBody(ref.NewEC(&ref.Curves[4], "k"), car, chr)
			r.file = ref.ECCert(dropHolder(body.DER()), make([]byte, 100))
			r.want.CHR = ""
		}
		r.want.Path = ""
		r.may = true
		r.ans = ok(r.file)
	case "same holder": // as every other of its kind: one holder, other bytes
		chr = uint64(0x0D44202001FFFF80 + 0x100*gen)
		if gen == 1 {
			r.file = ref.RSACert(rsaKey, ref.RSAContent(car, chr, 1924992000+86400*i, ref.RSAOf("ca").Mod(), ref.RSAOf("ca").Exp()), car)
			r.want.ExpirationDate = time.Unix(int64(1924992000+86400*i), 0).UTC().Format(time.RFC3339)
		} else {
			r.file = ref.GoodECCert(&ref.Curves[[]int{3, 4, 0}[i%3]], "groot", car, chr, fmt.Sprint("k", i)) // of other lengths
		}
		r.ans, r.want.CHR, r.want.Path = ok(r.file), fmt.Sprint(chr), ""
	case "same name": // no holder to name the file after; the link's last part is the same
		r.link = fmt.Sprintf("BIN_%s/%d/x.bin", tag, i)
		r.html = cells(land, "x", date.page, a(r.link))
		r.want.URL = base + "/" + r.link
		if gen == 1 {
			k := ref.RSAOf("other")
			r.file = ref.RSACert(k, ref.RSAContent(car, chr, 1924992000, k.Mod(), k.Exp()), car)
			r.want.ExpirationDate = date.rfc
		} else {
			body := ref.NewECBody(ref.NewEC(&ref.Curves[[]int{4, 3, 0}[i%3]], "k"), car, chr)
			r.file = ref.ECCert(dropHolder(body.DER()), make([]byte, 100))
		}
		r.want.CHR, r.want.Path, r.may, r.ans = "", "", true, ok(r.file)
	case "no holder":
		if gen == 2 {
			body := ref.NewECBody(ref.NewEC(&ref.Curves[4], "k"), car, chr)
			r.file = ref.ECCert(dropHolder(body.DER()), make([]byte, 100))
			r.want.CHR = ""
			r.want.Path = "g2/" + filepath.Base(link) + ".bin"
			r.may = true
			r.ans = ok(r.file)
		}
	default:
		r.ans = bad(kind, cert)
		r.want = nil
		if gen == 2 && kind == "short" {
			// One byte short is a broken structure.
			r.want = nil
		}
	}
	return r
}

// data is what a certificate and its row say.
type data struct {
	land, landHTML string
	date, rfc      string // on the page, and as listed
	car, chr       uint64
	until          int // of generation 1, in the certificate
	link, linkHTML string
	wrap           string // of the cells: "" or a variant
}

// rowWith is a row whose certificate is a good one.
func rowWith(gen int, d data) row {
	var cert []byte
	dir, eov := "g1", d.rfc
	if gen == 1 {
		cert = ref.RSACert(rsaKey, ref.RSAContent(d.car, d.chr, d.until, ref.RSAOf("ca").Mod(), ref.RSAOf("ca").Exp()), d.car)
		eov = time.Unix(int64(d.until), 0).UTC().Format(time.RFC3339)
	} else {
		dir = "g2"
		cert = ref.GoodECCert(&ref.Curves[3], "groot", d.car, d.chr, "k")
	}
	if d.landHTML == "" {
		d.landHTML = d.land
	}
	if d.linkHTML == "" {
		d.linkHTML = d.link
	}
	e := entry{CAR: fmt.Sprint(d.car), CHR: fmt.Sprint(d.chr), Country: d.land, URL: base + "/" + d.link, ExpirationDate: eov, Path: fmt.Sprintf("%s/%d.bin", dir, d.chr)}
	r := row{link: d.link, ans: ok(cert), want: &e, file: cert}
	a := `<a href="` + d.linkHTML + `">Download</a>`
	switch d.wrap {
	case "":
		r.html = cells(d.landHTML, "MSCA certificate", d.date, a)
	case "th":
		r.html = "<tr class=\"odd\"><th>" + d.landHTML + "</th><td></td><td>" + d.date + "</td>\n<td>" + a + "</td></tr>"
	case "two links":
		r.html = cells(d.landHTML, "MSCA certificate", d.date, `<a href="about.html">About</a> `+a)
	case "link first":
		r.html = cells(a, d.landHTML, d.date)
	case "inner":
		r.html = cells("<span><b>"+d.landHTML+"</b></span>", "<p>certificate of the authority</p>", "<div><span>"+d.date+"</span></div>", "<div><p>"+a+"</p></div>")
	case "table":
		r.html = "</tbody></table><h2>More</h2><table border=1>" + cells(d.landHTML, "MSCA certificate", d.date, a)
	}
	return r
}

// dropHolder cuts a certificate body after its public key.
func dropHolder(der []byte) []byte {
	// 7F 4E len: profile, CAR, CHA, key, CHR, dates
	h := 3
	switch {
	case der[2] == 0x81:
		h = 4
	case der[2] == 0x82:
		h = 5
	}
	i := bytes.Index(der, []byte{0x5F, 0x20, 8})
	if i < 0 {
		panic("no holder")
	}
	return ref.DER("7F4E", der[h:i])
}

type scenario struct {
	root   answer
	l1, l2 answer // listing pages; Body is filled in
	rows   [2][]row
	limit  int
	perm   []int // the order in which a page's downloads end
	race   bool
	stale  bool // the directory holds an earlier run's files
}

func page(rows []row) []byte {
	s := "<!DOCTYPE html><html><body><table><tbody>\n"
	for _, r := range rows {
		s += r.html
	}
	return []byte(s + "</tbody></table></body></html>")
}

var serial atomic.Int64

func show(s *scenario) string {
	t := fmt.Sprintf("root %d%s page1 %d%s page2 %d%s limit %d order %v", s.root.Status, s.root.Fail, s.l1.Status, s.l1.Fail, s.l2.Status, s.l2.Fail, s.limit, s.perm)
	for g, rs := range s.rows {
		for _, r := range rs {
			t += fmt.Sprintf(" | g%d %s %d%s %d bytes", g+1, r.link, r.ans.Status, r.ans.Fail, len(r.ans.Body))
		}
	}
	return t
}

func judge(c *mc.Ch, s *scenario) {
	text := show(s)
	c.Log("%s", text)
	outer := filepath.Join(os.Getenv("VERIF_TMP"), fmt.Sprint("f", serial.Add(1)))
	dir := filepath.Join(outer, "a", "certs")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.MkdirAll(filepath.Join(outer, "a"), 0o755))
	defer os.RemoveAll(outer)
	const before = `{"createTime":"2020-01-01T00:00:00Z","root":{"path":"root/EC_PK.bin"},"g1":[],"g2":[]}`
	if s.stale {
		for _, f := range []string{"root/EC_PK.bin", "root/old.bin", "g1/1.bin", "g2/2.bin"} {
			must(os.MkdirAll(filepath.Join(dir, filepath.Dir(f)), 0o755))
			must(os.WriteFile(filepath.Join(dir, f), []byte("old"), 0o644))
		}
		must(os.WriteFile(filepath.Join(dir, "index.json"), []byte(before), 0o644))
	}
	net := struct {
		Answers map[string]answer `json:"answers"`
		Order   [][]string        `json:"order"`
		Limit   int               `json:"limit"`
	}{Answers: map[string]answer{rootURL: s.root}, Limit: s.limit}
	for g, rs := range s.rows {
		a, u := s.l1, list1
		if g == 1 {
			a, u = s.l2, list2
		}
		if a.Body == nil {
			a.Body = page(rs)
		}
		net.Answers[u] = a
		var order []string
		for i := range rs {
			if r := rs[(i+at(s.perm, i))%len(rs)]; r.link != "" {
				net.Answers[base+"/"+r.link] = r.ans
				order = append(order, base+"/"+r.link)
			}
		}
		net.Order = append(net.Order, order)
	}
	b, err := json.Marshal(net)
	must(err)
	sc := filepath.Join(outer, "scenario.json")
	must(os.WriteFile(sc, b, 0o644))
	bin := os.Getenv("VERIF_BIN_FETCH")
	if s.race {
		bin = os.Getenv("VERIF_BIN_FETCHRACE")
	}
	cmd := exec.Command(bin, "-dir", dir, "-base-url", base, "-concurrency", fmt.Sprint(s.limit))
	cmd.Dir = filepath.Join(outer, "a")
	cmd.Env = append(os.Environ(), "VERIF_SCENARIO="+sc, "GORACE=exitcode=66", "TZ=Pacific/Auckland")
	var errs bytes.Buffer
	cmd.Stderr = &errs
	done := make(chan error, 1)
	must(cmd.Start())
	go func() { done <- cmd.Wait() }()
	code := 0
	select {
	case err := <-done:
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		} else if err != nil {
			panic(err)
		}
	case <-time.After(20 * time.Second):
		cmd.Process.Kill()
		<-done
		c.Fail("the tool does not end", "scenario", text, "stderr", tail(errs.String()))
	}
	fail := func(key string, kv ...any) {
		c.Fail(key, append([]any{"scenario", text, "exit", fmt.Sprint(code), "stderr", tail(errs.String())}, kv...)...)
	}
	if strings.Contains(errs.String(), "DATA RACE") {
		fail("data race")
	}
	if strings.Contains(errs.String(), "panic:") || strings.Contains(errs.String(), "fatal error:") {
		fail("the tool crashes")
	}
	// Everything on disk.
	files := map[string][]byte{}
	must(filepath.WalkDir(outer, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() && p != sc {
			rel, err := filepath.Rel(dir, p)
			must(err)
			b, err := os.ReadFile(p)
			must(err)
			files[filepath.ToSlash(rel)] = b
		}
		return nil
	}))
	for f := range files {
		if strings.HasPrefix(f, "..") {
			fail("writes outside the directory", "file", f)
		}
	}
	if b, found := files["root/EC_PK.bin"]; found && !bytes.Equal(b, rootBin) {
		fail("leaves a root certificate that is none", "bytes", mc.Hex(b))
	}
	rootOK := s.root.Fail == "" && s.root.Status == 200 && bytes.Equal(s.root.Body, zipOf("EC_PK.bin", rootBin))
	l1OK, l2OK := s.l1.Fail == "" && s.l1.Status == 200, s.l2.Fail == "" && s.l2.Status == 200
	if !rootOK || !l1OK || !l2OK {
		if code == 0 {
			fail("success without the root certificate or a listing")
		}
		old, found := files["index.json"]
		if found != s.stale || found && string(old) != before {
			fail("writes an index of a run that failed", "index", string(old))
		}
		c.Visit(mc.HashS(text))
		c.Outcome("fails")
		return
	}
	if code != 0 {
		fail("fails without a reason")
	}
	var idx index
	if err := json.Unmarshal(files["index.json"], &idx); err != nil {
		fail("the index cannot be read", "error", err.Error())
	}
	if d := time.Since(idx.CreateTime); d < -time.Minute || d > 10*time.Minute {
		fail("wrong creation time", "time", idx.CreateTime.String())
	}
	if idx.Root == nil || *idx.Root != (entry{CAR: fmt.Sprint(uint64(rootID)), CHR: fmt.Sprint(uint64(rootID)), URL: rootURL, Path: "root/EC_PK.bin"}) {
		fail("wrong entry for the root certificate", "entry", fmt.Sprintf("%+v", idx.Root))
	}
	if files["root/EC_PK.bin"] == nil {
		fail("no root certificate")
	}
	listed := map[string]bool{"root/EC_PK.bin": true, "index.json": true}
	for g, got := range [][]entry{idx.G1, idx.G2} {
		type item struct {
			row
			n int
		}
		want := map[string]*item{} // by URL
		for _, r := range s.rows[g] {
			if r.link == "" {
				continue
			}
			u := base + "/" + r.link
			if want[u] == nil {
				want[u] = &item{row: r}
			}
			want[u].n++
			if r.want == nil && !strings.Contains(errs.String(), "Warning") {
				fail("a failed download is not reported", "url", u)
			}
		}
		seen := map[string]int{}
		for _, e := range got {
			it := want[e.URL]
			if it == nil || it.want == nil {
				fail("lists what was not downloaded", "entry", fmt.Sprintf("%+v", e))
			}
			seen[e.URL]++
			w := *it.want
			if w.Path == "" { // any place inside
				w.Path = e.Path
			}
			if e != w {
				fail(fmt.Sprintf("wrong entry: generation %d", g+1), "got", fmt.Sprintf("%+v", e), "want", fmt.Sprintf("%+v", w))
			}
			if strings.HasPrefix(filepath.Clean(e.Path), "..") {
				fail("lists a file outside", "path", e.Path)
			}
			if b := files[e.Path]; !bytes.Equal(b, it.file) {
				fail("the file is not what was downloaded", "entry", fmt.Sprintf("%+v", e), "bytes", mc.Hex(b))
			}
			listed[e.Path] = true
		}
		for u, it := range want {
			if it.want != nil && seen[u] != it.n && !(it.may && seen[u] < it.n) {
				fail("a certificate is missing or listed too often", "url", u, "times", fmt.Sprint(seen[u]), "want", fmt.Sprint(it.n))
			}
		}
		if !sort.SliceIsSorted(got, func(i, j int) bool {
			a, b := got[i], got[j]
			if a.Country != b.Country {
				return a.Country < b.Country
			}
			return a.ExpirationDate > b.ExpirationDate // RFC 3339 in UTC; no date comes last
		}) {
			var x []string
			for _, e := range got {
				x = append(x, e.Country+" "+e.ExpirationDate)
			}
			fail("wrong order", "entries", strings.Join(x, ", "))
		}
	}
	for f := range files {
		if !listed[f] {
			fail("a file that is not listed", "file", f)
		}
	}
	var names []string
	for f := range files {
		names = append(names, f)
	}
	slices.Sort(names)
	c.Visit(mc.HashS(text))
	c.Outcome(strings.Join(names, " "))
}

func at(p []int, i int) int {
	if i < len(p) {
		return p[i]
	}
	return 0
}

func tail(s string) string { return s[max(0, len(s)-1500):] }

func run(k *mc.Check) {
	good := zipOf("EC_PK.bin", rootBin)
	bare := func() *scenario {
		return &scenario{root: ok(good), l1: answer{Status: 200}, l2: answer{Status: 200}, limit: 10}
	}
	kinds := append([]string{"good", "title", "unknown key", "no holder", "same holder", "same name", "escape", "head", "nolink", "otherlink", "short row", "spaces"}, bads...)
	core := append([]string{"good", "title", "unknown key", "same holder", "same name", "head"}, "404", "net", "cut", "html")
	if k.Thorough() {
		core = kinds
	}
	for gen := 1; gen <= 2; gen++ {
		k.Explore(fmt.Sprintf("generation %d: every kind of row, one and two", gen), 0, func(c *mc.Ch) {
			s := bare()
			s.stale = c.Free(2) == 1
			n := 1 + c.Free(2)
			for i := range n {
				s.rows[gen-1] = append(s.rows[gen-1], rowOf(gen, mc.FreeOf(c, kinds...), i))
			}
			judge(c, s)
		})
		k.Explore(fmt.Sprintf("generation %d: three rows", gen), 0, func(c *mc.Ch) {
			s := bare()
			for i := range 3 {
				s.rows[gen-1] = append(s.rows[gen-1], rowOf(gen, mc.FreeOf(c, core...), i))
			}
			judge(c, s)
		})
		// n good rows in every order of page and place.
		k.Explore(fmt.Sprintf("generation %d: every order of four certificates on the page", gen), 0, func(c *mc.Ch) {
			s := bare()
			left := []int{0, 1, 2, 3}
			for len(left) > 0 {
				x := c.Free(len(left))
				s.rows[gen-1] = append(s.rows[gen-1], rowOf(gen, "good", left[x]))
				left = slices.Delete(left, x, x+1)
			}
			judge(c, s)
		})
		k.Explore(fmt.Sprintf("generation %d: every order of answers to concurrent downloads", gen), 0, func(c *mc.Ch) {
			s := bare()
			s.limit = 1 + c.Free(4)
			n := 4
			menu := mc.FreeOf(c, []string{"good", "good", "good", "unknown key"}, []string{"good", "good", "404", "unknown key"}, []string{"good", "good", "net", "unknown key"},
				[]string{"good", "good", "same", "unknown key"}, []string{"same holder", "good", "same holder", "same holder"}, []string{"same name", "same name", "good", "same name"})
			for i := range n {
				if menu[i] == "same" {
					s.rows[gen-1] = append(s.rows[gen-1], s.rows[gen-1][0])
					continue
				}
				s.rows[gen-1] = append(s.rows[gen-1], rowOf(gen, menu[i], i))
			}
			left := []int{0, 1, 2, 3}
			for i := 0; len(left) > 0; i++ {
				x := c.Free(len(left))
				s.perm = append(s.perm, (left[x]-i+n)%n)
				left = slices.Delete(left, x, x+1)
			}
			judge(c, s)
		})
		k.Explore(fmt.Sprintf("generation %d: under the race detector", gen), 0, func(c *mc.Ch) {
			s := bare()
			s.race = true
			s.limit = mc.FreeOf(c, 2, 5, 20)
			n := mc.FreeOf(c, 2, 12)
			bad := mc.FreeOf(c, "good", "404", "unknown key")
			for i := range n {
				kind := "good"
				if i%2 == 1 {
					kind = bad
				}
				s.rows[gen-1] = append(s.rows[gen-1], rowOf(gen, kind, i))
			}
			judge(c, s)
		})
	}
	// Many rows of one page, each with another value of one thing.
	things := []string{"beginning", "holder", "authority", "end", "page date", "country", "link", "layout"}
	k.Explore("values of everything a row and its certificate hold", 0, func(c *mc.Ch) {
		gen := 1 + c.Free(2)
		thing := mc.FreeOf(c, things...)
		s := bare()
		dir := []string{"DT", "ST"}[gen-1]
		add := func(set func(*data)) {
			i := len(s.rows[gen-1])
			d := data{land: "Norway", date: "21/03/2031", rfc: "2031-03-21T00:00:00Z", car: rootID, chr: uint64(0x0D44202001FFFF00+0x100*gen) + uint64(i)<<16, until: 1924992000,
				link: fmt.Sprintf("BIN_%s/V%dG%d.bin", dir, i, gen)}
			set(&d)
			s.rows[gen-1] = append(s.rows[gen-1], rowWith(gen, d))
		}
		numbers := func(n int, set func(d *data, v uint64)) {
			seen := map[uint64]bool{}
			one := func(v uint64) {
				if n < 8 {
					v &= 1<<(8*n) - 1
				}
				if v != 0 && !seen[v] {
					seen[v] = true
					add(func(d *data) { set(d, v) })
				}
			}
			for i := range n {
				for _, b := range []uint64{0x01, 0x7F, 0x80, 0xFF} {
					one(b << (8 * i))
					one(0x1234567812345678 ^ b<<(8*i))
				}
			}
			one(1<<64 - 1)
			one(1<<63 - 1)
			one(1<<(8*n-1) - 1)
			one(1<<(8*n) - 2)
		}
		switch thing {
		case "beginning": // certificates that begin with every byte, as far as they can
			if gen == 2 {
				return
			}
			begins := map[byte]bool{}
			for i := uint64(0); i < 5000 && len(begins) < mc.Pick2(k, 64, 102); i++ { // signatures are below the modulus
				d := data{car: rootID, chr: 0x0D44202000000000 + i, until: 1924992000}
				if b := rowWith(1, d).file[0]; !begins[b] && (b < 64 || len(begins) > 50) {
					begins[b] = true
					add(func(d *data) { d.chr = 0x0D44202000000000 + i })
				}
			}
		case "holder":
			numbers(8, func(d *data, v uint64) { d.chr = v })
		case "authority":
			numbers(8, func(d *data, v uint64) { d.car = v })
		case "end":
			numbers(4, func(d *data, v uint64) { d.until = int(v) })
			for i := range 30 { // within a day, and around it
				add(func(d *data) { d.until = 1924992000 + (i*7)%30*3600 + i%2 })
			}
		case "page date":
			year := mc.FreeOf(c, 2028, 2027, 1999, 2000, 2038)
			for t := time.Date(year, 1, 1, 0, 0, 0, 0, time.UTC); t.Year() == year; t = t.AddDate(0, 0, 1) {
				for _, f := range []string{"02/01/2006", "2006-01-02"} {
					add(func(d *data) { d.date, d.rfc = t.Format(f), t.Format(time.RFC3339) })
				}
			}
		case "country":
			for _, x := range []string{"Åland", "Österreich", "Türkiye", "Bosnia and Herzegovina", "Bosnia & Herzegovina", "United Kingdom (Great Britain)", "Guinea-Bissau", "norway", "NORWAY",
				"Norway (old)", "Norwa", "Ελλάδα", "Македонија", "Lao", "São Tomé/Príncipe", "Côte d'Ivoire", "\"Quoted\"", "Zypern", "a b c d"} {
				add(func(d *data) { d.land, d.landHTML = x, html.EscapeString(x) })
				add(func(d *data) { d.land, d.landHTML, d.until = x, "\n\t"+html.EscapeString(x)+" ", d.until+86400 })
			}
		case "link":
			for _, x := range []string{"BIN_%s/a.b.c.bin", "files/BIN_%s/x.bin", "get.php?id=5&file=iot_doc/BIN_%sx", "get.php?file=BIN_%s&id=5", "BIN_%s.bin", "x/BIN_%s", "BIN_%s/with%%20space.bin", "a;b/BIN_%s,c"} {
				x = fmt.Sprintf(x, dir)
				add(func(d *data) { d.link, d.linkHTML = x, html.EscapeString(x) })
			}
		case "layout":
			for _, x := range []string{"", "th", "two links", "link first", "inner", "table"} {
				add(func(d *data) { d.wrap = x })
			}
		}
		s.limit = mc.FreeOf(c, 10, 1)
		judge(c, s)
	})
	k.Explore("both generations", 0, func(c *mc.Ch) {
		s := bare()
		for g := range 2 {
			for i := range c.Free(3) {
				s.rows[g] = append(s.rows[g], rowOf(g+1, mc.FreeOf(c, "good", "500", "short"), i))
			}
		}
		judge(c, s)
	})
	k.Explore("the root certificate and the listings", 0, func(c *mc.Ch) {
		s := bare()
		s.stale = c.Free(2) == 1
		s.rows[0] = []row{rowOf(1, "good", 0)}
		s.rows[1] = []row{rowOf(2, "good", 0)}
		zero := bytes.Clone(rootBin)
		copy(zero[8:136], make([]byte, 128))
		noexp := bytes.Clone(rootBin)
		copy(noexp[136:], make([]byte, 8))
		s.root = mc.FreeOf(c, ok(good), answer{Status: 404, Body: good}, answer{Status: 500}, answer{Fail: "net"}, answer{Status: 200, Body: good[:len(good)/2], Fail: "cut"},
			ok(good[:len(good)-10]), ok([]byte("<html>")), ok(nil), ok(zipOf("", nil)), ok(zipOf("other.bin", rootBin)), ok(zipOf("EC_PK.bin", rootBin[:143])),
			ok(zipOf("EC_PK.bin", append(bytes.Clone(rootBin), 0))), ok(zipOf("EC_PK.bin", nil)), ok(zipOf("EC_PK.bin", zero)), ok(zipOf("EC_PK.bin", noexp)))
		pages := []answer{{Status: 200}, {Status: 404, Body: []byte("<html>")}, {Status: 503}, {Fail: "net"}, {Status: 200, Body: page(s.rows[0])[:60], Fail: "cut"}}
		s.l1 = mc.FreeOf(c, pages...)
		s.l2 = mc.FreeOf(c, pages...)
		judge(c, s)
	})
	k.Assume("the tool's HTTP transport is replaced by the scenario's answers; every run is a process of the built tool")
	k.Assume("writing a file either succeeds or fails as a whole: no crash is injected inside a file write")
}
