// P27: the command line prints every file it is given, in order, or fails.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	"github.com/way-platform/tachograph-go/internal/verifmc/world"
	"google.golang.org/protobuf/encoding/protojson"
)

func main() { mc.Main("P27", run) }

// file is an argument and what is to be printed for it.
type file struct {
	name string
	data []byte
	want string // compact JSON, "" if it cannot be read or parsed
}

func compact(b []byte) string {
	var out bytes.Buffer
	if err := json.Compact(&out, b); err != nil {
		panic(err)
	}
	return out.String()
}

func newFile(dir, name string, data []byte) file {
	f := file{name: filepath.Join(dir, name), data: data}
	if err := os.WriteFile(f.name, data, 0o644); err != nil {
		panic(err)
	}
	if m, err := tachograph.UnmarshalFile(bytes.Clone(data)); err == nil {
		b, err := protojson.Marshal(m)
		if err != nil {
			panic(err)
		}
		f.want = compact(b)
	}
	return f
}

// judge runs the program over the files.
func judge(c *mc.Ch, files []file, flags ...string) {
	var names []string
	for _, f := range files {
		names = append(names, f.name)
	}
	judgeIn(c, "", names, files, flags...)
}

// judgeWith runs the program over files it has open.
func judgeWith(c *mc.Ch, extra []*os.File, files []file) {
	var names []string
	for _, f := range files {
		names = append(names, f.name)
	}
	run1(c, "", extra, names, files)
}

// judgeIn runs the program in dir over the files, which have other names there.
func judgeIn(c *mc.Ch, dir string, names []string, files []file, flags ...string) {
	run1(c, dir, nil, names, files, flags...)
}

func run1(c *mc.Ch, dir string, extra []*os.File, names []string, files []file, flags ...string) {
	args := append([]string{"parse"}, flags...)
	var show []string
	for i, f := range files {
		args = append(args, names[i])
		show = append(show, names[i][max(0, len(names[i])-40):])
		f.name = names[i]
		files[i] = f
	}
	c.Log("tachograph parse %s", strings.Join(show, " "))
	c.Visit(mc.HashS(strings.Join(show, " ")))
	cmd := exec.Command(os.Getenv("VERIF_BIN_CLI"), args...)
	cmd.Dir, cmd.ExtraFiles = dir, extra
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	code := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err != nil {
		panic(err)
	}
	// The first file that cannot be printed ends what must be.
	var good []string // of all files, in order
	bad := -1
	for i, f := range files {
		if f.want == "" {
			if bad < 0 {
				bad = i
			}
			continue
		}
		good = append(good, f.want)
	}
	kind := func(i int) string { return filepath.Base(files[i].name) }
	var docs []string
	d := json.NewDecoder(&out)
	for {
		var raw json.RawMessage
		err := d.Decode(&raw)
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Fail("what is printed is no JSON", "arguments", fmt.Sprint(show), "error", err.Error(), "exit", fmt.Sprint(code))
		}
		docs = append(docs, compact(raw))
	}
	if bad >= 0 {
		if code == 0 {
			c.Fail("success in spite of "+kind(bad), "arguments", fmt.Sprint(show), "documents", fmt.Sprint(len(docs)))
		}
		if files[bad].name != "" && !strings.Contains(strings.Join(strings.Fields(errs.String()), ""), strings.Join(strings.Fields(filepath.Base(files[bad].name)), "")) {
			// The message may be folded; the name is in it all the same.
			c.Fail("the error does not say which file", "arguments", fmt.Sprint(show), "stderr", errs.String())
		}
		if len(docs) > len(good) {
			c.Fail("more documents than good files", "arguments", fmt.Sprint(show), "documents", fmt.Sprint(len(docs)))
		}
		c.Outcome("fails")
	} else {
		if code != 0 {
			c.Fail("failure without a reason", "arguments", fmt.Sprint(show), "stderr", errs.String())
		}
		if len(docs) != len(good) {
			c.Fail("documents missing or too many", "arguments", fmt.Sprint(show), "documents", fmt.Sprint(len(docs)), "stderr", errs.String())
		}
		c.Outcome(fmt.Sprint("prints ", len(docs)))
	}
	for i, x := range docs {
		if x != good[i] {
			n := 0
			for n < len(x) && n < len(good[i]) && x[n] == good[i][n] {
				n++
			}
			c.Fail(fmt.Sprintf("document %d is not what the library reads", i), "arguments", fmt.Sprint(show), "got", x[max(0, n-80):min(len(x), n+300)], "want", good[i][max(0, n-80):min(len(good[i]), n+300)])
		}
	}
}

func run(k *mc.Check) {
	dir := os.Getenv("VERIF_TMP")
	g1, raw, vu := world.Small(true, false), world.Raw(), world.VU1(0)
	menu := []file{
		newFile(dir, "card.ddd", g1),
		newFile(dir, "othercard.ddd", world.Small(true, true)),
		newFile(dir, "vu.ddd", vu),
		newFile(dir, "raw card.tgd", raw),
		newFile(dir, "cut.ddd", g1[:len(g1)-3]),
		newFile(dir, "cutvu.ddd", vu[:len(vu)-200]),
		newFile(dir, "empty.ddd", nil),
		newFile(dir, "text.ddd", []byte("hello, this is not a tachograph file")),
		{name: filepath.Join(dir, "missing.ddd")},
		{name: filepath.Join(dir, "folder.ddd")},
	}
	if err := os.MkdirAll(menu[len(menu)-1].name, 0o755); err != nil {
		panic(err)
	}
	for i, f := range menu {
		if (f.want != "") != (i < 4) {
			k.Violation("the library reads or refuses the wrong file: "+filepath.Base(f.name), nil)
			return
		}
	}
	for n := 1; n <= mc.Pick2(k, 3, 4); n++ {
		k.Explore(fmt.Sprintf("every list of %d files", n), 0, func(c *mc.Ch) {
			var fs []file
			for range n {
				fs = append(fs, mc.FreeOf(c, menu...))
			}
			judge(c, fs)
		})
	}
	k.Explore("no file", 0, func(c *mc.Ch) {
		cmd := exec.Command(os.Getenv("VERIF_BIN_CLI"), "parse")
		if err := cmd.Run(); err == nil {
			c.Fail("success without a file")
		}
		c.Visit(1)
		c.Outcome("refused")
	})
	// One file of every content the reference can make, alone and after another.
	var all []file
	for i := range ref.Slots {
		s := &ref.Slots[i]
		for x := 0; x < mc.Pick2(k, 4, 12); x++ {
			sig := -1
			if s.Signed {
				sig = x
			}
			rs := s.Records(s.Content(x), sig)
			if s.Name != "icc" {
				rs = append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...)
			}
			all = append(all, newFile(dir, fmt.Sprintf("%s-%d.ddd", strings.ReplaceAll(s.Name, " ", "-"), x), ref.Join(rs)))
		}
	}
	for x := 0; x < 2; x++ {
		all = append(all, newFile(dir, fmt.Sprintf("driver-%d.ddd", x), world.Driver(x)), newFile(dir, fmt.Sprintf("vu1-%d.ddd", x), world.VU1(x)), newFile(dir, fmt.Sprintf("vu2-%d.ddd", x), world.VU2(x+1)))
	}
	k.Explore("every content", 0, func(c *mc.Ch) {
		fs := []file{mc.FreeOf(c, all...)}
		switch c.Free(3) {
		case 1:
			fs = append(fs, menu[0])
		case 2:
			fs = append([]file{menu[2]}, fs...)
		}
		judge(c, fs)
	})
	k.Explore("every first and last byte, bytes before and behind", 0, func(c *mc.Ch) {
		b := bytes.Clone([][]byte{g1, vu, raw}[c.Free(3)])
		x := byte(c.Free(256))
		if !k.Thorough() && x&15 > 1 && x != 10 && x != 13 && x != 26 && x != 255 && x != 0x76 && x != 0xBF && x != 0xEF {
			c.Outcome("left out")
			return
		}
		at := c.Free(4)
		switch at {
		case 0:
			b[0] = x
		case 1:
			b[len(b)-1] = x
		case 2:
			b = append([]byte{x}, b...)
		case 3:
			b = append(b, x)
		}
		f := newFile(dir, fmt.Sprintf("ends-%d-%02x-%d.ddd", at, x, mc.Hash(b)), b)
		defer os.Remove(f.name)
		judge(c, []file{f})
	})
	k.Explore("every character in every text", 0, func(c *mc.Ch) {
		b := bytes.Clone([][]byte{world.Driver(0), vu, raw}[c.Free(3)])
		text := string(rune(32 + c.Free(95)))
		if c.Bool() {
			text = []string{"%s%d%v%n", "\\n\\u0041", "\"}]{", "<b>&amp;", "\u00e9\u00df", "\xe9\xff", "a\tb", "\r\n", "\x00\x01\x7f", "null", "''\"\"", "0x00"}[c.Free(12)]
		}
		// A text: four letters or more in a row.
		for i := 0; i < len(b); {
			j := i
			for j < len(b) && (b[j]|32 >= 'a' && b[j]|32 <= 'z') {
				j++
			}
			if j-i >= 4 {
				for x := i; x < j; x++ {
					b[x] = text[(x-i)%len(text)]
				}
			}
			i = max(j, i+1)
		}
		f := newFile(dir, fmt.Sprintf("text-%d.ddd", mc.Hash(b)), b)
		defer os.Remove(f.name)
		if f.want != "" {
			c.Outcome("readable")
		}
		judge(c, []file{f})
	})
	// Every kind of name, of place and of file.
	odd := filepath.Join(dir, "odd")
	for _, d := range []string{odd, filepath.Join(odd, "sub folder", "deep")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
	}
	link := func(name string, to string, f file) file {
		if err := os.Symlink(to, filepath.Join(odd, name)); err != nil {
			panic(err)
		}
		return file{name: name, data: f.data, want: f.want}
	}
	hard := func(name string, f file) file {
		if err := os.Link(f.name, filepath.Join(odd, name)); err != nil {
			panic(err)
		}
		return file{name: name, data: f.data, want: f.want}
	}
	big, huge := bytes.Clone(vu), bytes.Clone(raw)
	block := ref.JoinVU([]ref.Transfer{{TREP: 4, B: ref.Speed1(1000)}})
	for len(big) < 3<<20 {
		big = append(big, block...)
	}
	for len(huge) < 1<<20 {
		huge = append(huge, ref.Join([]ref.Record{{FID: 0xD000, Value: make([]byte, 60000)}})...)
	}
	var places []file // names relative to odd
	for _, n := range []string{"CARD.DDD", "card", "card.txt", "c.V1B", ".hidden", "sub folder/deep/x.ddd", "./x.ddd", "sub folder/../y.ddd", "a*.ddd", "a1.ddd", "[ab].ddd", "{a,b}.ddd", "$HOME", "~", "@list", "-", "--", "-x.ddd", "--help", "%s%d.ddd",
		"f\u00f6rare.ddd", "\u30c9\u30e9\u30a4\u30d0.ddd", "\xff\xfe.ddd", "tab\tname.ddd", "new\nline.ddd", strings.Repeat("n", 250) + ".ddd", "http:x.ddd", "a,b.ddd", "a;b.ddd", "a=b", "completion", "help", "parse"} {
		f := newFile(odd, n, g1)
		f.name = n
		places = append(places, f)
	}
	for _, x := range []struct {
		n string
		b []byte
	}{{"same1.ddd", vu}, {"same2.ddd", vu}, {"big.ddd", big}, {"bigcard.ddd", huge}, {"emptied.ddd", nil}, {"a2.ddd", raw}, {"one", []byte{0}}, {"two", []byte{0x76, 0}}} {
		f := newFile(odd, x.n, x.b)
		f.name = x.n
		places = append(places, f)
	}
	if places[len(places)-6].want == "" || len(places[len(places)-6].want) < 1<<20 {
		k.Violation("a long download is refused", map[string]any{"bytes": len(big)})
		return
	}
	places = append(places, link("link.ddd", "../card.ddd", menu[0]), link("linklink.ddd", "link.ddd", menu[0]), link("nowhere.ddd", "nothing", file{}), link("circle.ddd", "circle.ddd", file{}),
		hard("hard.ddd", menu[0]), file{name: "../card.ddd", data: g1, want: menu[0].want}, file{name: "/dev/null"}, file{name: "card/"}, file{name: ""})
	other := file{name: "../vu.ddd", data: vu, want: menu[2].want}
	k.Explore("every kind of name, of place and of file", 0, func(c *mc.Ch) {
		fs := []file{places[c.Free(len(places))]}
		switch c.Free(4) {
		case 1:
			fs = append(fs, other)
		case 2:
			fs = append([]file{other}, fs...)
		case 3: // itself again
			fs = append(fs, other, fs[0])
		}
		var names []string
		for _, f := range fs {
			names = append(names, f.name)
		}
		judgeIn(c, odd, names, fs, "--")
	})
	if k.Thorough() {
		k.Explore("every pair of names, places and files", 0, func(c *mc.Ch) {
			fs := []file{places[c.Free(len(places))], places[c.Free(len(places))]}
			judgeIn(c, odd, []string{fs[0].name, fs[1].name}, fs, "--")
		})
	}
	k.Explore("a file that is a pipe", 0, func(c *mc.Ch) {
		var files []file
		var extra []*os.File
		for range 1 + c.Free(2) {
			f := mc.FreeOf(c, menu[:8]...)
			r, w, err := os.Pipe()
			if err != nil {
				panic(err)
			}
			defer r.Close()
			chunk := mc.FreeOf(c, 1, 100, 1<<20)
			if len(f.data) > 1<<12 && chunk == 1 {
				chunk = 7
			}
			go func() {
				defer w.Close()
				for b := f.data; len(b) > 0; b = b[min(chunk, len(b)):] {
					if _, err := w.Write(b[:min(chunk, len(b))]); err != nil {
						return
					}
				}
			}()
			extra = append(extra, r)
			files = append(files, file{name: fmt.Sprint("/dev/fd/", 2+len(extra)), data: f.data, want: f.want})
		}
		judgeWith(c, extra, files)
	})
	k.Explore("what cannot be written", 0, func(c *mc.Ch) {
		var args []string
		for range 1 + c.Free(3) {
			args = append(args, mc.FreeOf(c, menu[:4]...).name)
		}
		cmd := exec.Command(os.Getenv("VERIF_BIN_CLI"), append([]string{"parse"}, args...)...)
		how := mc.FreeOf(c, "full", "no reader", "read only")
		switch how {
		case "full", "read only":
			name, flag := "/dev/full", os.O_WRONLY
			if how == "read only" {
				name, flag = menu[0].name, os.O_RDONLY
			}
			o, err := os.OpenFile(name, flag, 0)
			if err != nil {
				panic(err)
			}
			defer o.Close()
			cmd.Stdout = o
		case "no reader":
			r, w, err := os.Pipe()
			if err != nil {
				panic(err)
			}
			r.Close()
			defer w.Close()
			cmd.Stdout = w
		}
		err := cmd.Run()
		c.Visit(mc.HashS(how + strings.Join(args, " ")))
		c.Outcome(how)
		if err == nil {
			c.Fail("success although nothing could be printed", "output", how, "arguments", fmt.Sprint(args))
		}
	})
	// Many files at once.
	k.Explore("many files", 0, func(c *mc.Ch) {
		n := mc.FreeOf(c, 10, 100)
		bad := c.Free(n + 1)
		if n == 100 && bad%9 != 0 {
			return
		}
		var fs []file
		for i := range n {
			fs = append(fs, all[(i*7)%len(all)])
		}
		if bad < n {
			fs[bad] = menu[4]
		}
		judge(c, fs)
	})
	k.Assume("the program is built from /repo/cmd/tachograph; the library's reading of a file is judged by the other properties")
	k.Assume("after an error, the documents of the files before it may be on standard output")
}
